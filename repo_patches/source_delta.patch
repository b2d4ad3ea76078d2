From 793c986e3ae71c1c85096c6c095734fb89416ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:38 +0000
Subject: [PATCH 01/48] fix: conjugate_gradient_solve no longer overwrites the
 given starting guess

---
 src/tight_binding_redweasel/linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/linalg.py b/src/tight_binding_redweasel/linalg.py
index ae7894d..6790f63 100644
--- a/src/tight_binding_redweasel/linalg.py
+++ b/src/tight_binding_redweasel/linalg.py
@@ -247,7 +247,7 @@ def conjugate_gradient_solve(A: Callable[[np.ndarray], np.ndarray], b: np.ndarra
         x = np.zeros_like(b)
         r = -b
     else:
-        x = x0
+        x = np.array(x0)  # x is updated in place, so don't touch the given starting guess
         r = A(x) - b
     d = r.copy()
     r_sqr = np.sum(r.conj() * r)
-- 
2.43.0


From 7f3d5f8ae8f47bac87f14fd5ad908f8f61861a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:38 +0000
Subject: [PATCH 02/48] fix: extrapolate_poly no longer overwrites the given
 table

---
 src/tight_binding_redweasel/smearing.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tight_binding_redweasel/smearing.py b/src/tight_binding_redweasel/smearing.py
index 8e5bcbd..c70e9a3 100644
--- a/src/tight_binding_redweasel/smearing.py
+++ b/src/tight_binding_redweasel/smearing.py
@@ -250,6 +250,7 @@ class CubesSmearing(SmearingMethod):
 # Neville Extrapolation, linear in T
 def extrapolate_poly(T, p=2):
     # TODO test other extrapolation methods!
+    T = list(T)  # the table is updated in place, so don't touch the given one
     for m in range(1, len(T)):
         for k in range(0, len(T) - m):
             T[k] = T[k+1] + (T[k+1] - T[k]) / ((2**p)**m - 1)
-- 
2.43.0


From 38a96f4e40297e21075738640b493f173b3e67ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:55 +0000
Subject: [PATCH 03/48] fix: BandStructureModel owns its parameters instead of
 sharing the given array

---
 src/tight_binding_redweasel/bandstructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/bandstructure.py b/src/tight_binding_redweasel/bandstructure.py
index ee2ccf2..525b854 100644
--- a/src/tight_binding_redweasel/bandstructure.py
+++ b/src/tight_binding_redweasel/bandstructure.py
@@ -69,7 +69,7 @@ class BandStructureModel:
         self.df_i = df_i
         self.ddf_i = ddf_i
         self.symmetrizer = None
-        self.params = np.asarray(params)
+        self.params = np.array(params)  # a copy, as the params are updated in place
         self.sym: Symmetry | None = None
         self.cos_reduced: bool | None = None
         self.exp: bool | None = None
-- 
2.43.0


From 3688fa5dee119a88eee5ddfea16f81083858b8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:55 +0000
Subject: [PATCH 04/48] fix: HermitianFourierSeries owns its neighbors and
 coefficients instead of sharing the given arrays

---
 src/tight_binding_redweasel/tight_binding_asym.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/tight_binding_asym.py b/src/tight_binding_redweasel/tight_binding_asym.py
index 7815886..6d98e98 100644
--- a/src/tight_binding_redweasel/tight_binding_asym.py
+++ b/src/tight_binding_redweasel/tight_binding_asym.py
@@ -25,8 +25,8 @@ class HermitianFourierSeries:
         assert np.shape(H_r)[1] == np.shape(H_r)[2]
         assert len(np.shape(neighbors)) == 2
         assert len(np.shape(H_r)) == 3
-        self.neighbors = np.asarray(neighbors, dtype=float)
-        self.H_r = np.asarray(H_r)
+        self.neighbors = np.array(neighbors, dtype=float)
+        self.H_r = np.array(H_r)  # a copy, as the coefficients are updated in place
 
     def dim(self) -> int:
         """
-- 
2.43.0


From ffd1458784f0e845f2a6187e4874f488a29ca6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:55 +0000
Subject: [PATCH 05/48] fix: AsymTightBindingModel.params_complex returns a
 copy, as BandStructureModel.params_complex does

---
 src/tight_binding_redweasel/tight_binding_asym.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/tight_binding_asym.py b/src/tight_binding_redweasel/tight_binding_asym.py
index 6d98e98..75724a0 100644
--- a/src/tight_binding_redweasel/tight_binding_asym.py
+++ b/src/tight_binding_redweasel/tight_binding_asym.py
@@ -758,7 +758,7 @@ class AsymTightBindingModel:
         Returns:
             ndarray: The coefficients of the HermitianFourierSeries `self.H`
         """
-        return self.H.H_r
+        return np.array(self.H.H_r)
 
     def set_from_complex(self, H_r):
         """Set `self.H` from the values of the complex fourier coefficients $H_r$.
-- 
2.43.0


From 64843a7d9b935ea386f78bb8bd537ba584c78483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:55 +0000
Subject: [PATCH 06/48] fix: TightBindingModel owns its parameters instead of
 sharing the given array

---
 src/tight_binding_redweasel/tight_binding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/tight_binding.py b/src/tight_binding_redweasel/tight_binding.py
index 021a397..f42a4d8 100644
--- a/src/tight_binding_redweasel/tight_binding.py
+++ b/src/tight_binding_redweasel/tight_binding.py
@@ -35,7 +35,7 @@ class TightBindingModel:
         # check params
         if params is not None:
             assert np.shape(unitary_repr.U)[1] == np.shape(params)[1]
-            self.params = np.asarray(params)
+            self.params = np.array(params)  # a copy, as the params are updated in place
             pshape = np.shape(self.params)
             assert len(pshape) == 3
             assert pshape[1] == pshape[2]
-- 
2.43.0


From cf79dbe21816ad88f3f3d09bcf0eb72ddc09bdd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:55 +0000
Subject: [PATCH 07/48] fix: QECrystal owns its lattice matrix, so
 scale_to_density does not change the given array

---
 src/tight_binding_redweasel/qespresso_interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/qespresso_interface.py b/src/tight_binding_redweasel/qespresso_interface.py
index f157566..1edbb5c 100644
--- a/src/tight_binding_redweasel/qespresso_interface.py
+++ b/src/tight_binding_redweasel/qespresso_interface.py
@@ -306,7 +306,7 @@ class QECrystal:
         assert unit in ("angstrom", "bohr")
         self.name = name
         self.unit = unit
-        self.A = np.asarray(A)
+        self.A = np.array(A)  # a copy, as scale_to_density scales it in place
         self.basis = np.asarray(basis)
         self.types = np.asarray(types)
         self.relativistic = relativistic
-- 
2.43.0


From ea30483e63a4503af8bddb29051749022f873849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:25 +0000
Subject: [PATCH 08/48] fix: TightBindingModel can be created with an inversion
 symmetric representation

---
 src/tight_binding_redweasel/tight_binding.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tight_binding_redweasel/tight_binding.py b/src/tight_binding_redweasel/tight_binding.py
index f42a4d8..0972564 100644
--- a/src/tight_binding_redweasel/tight_binding.py
+++ b/src/tight_binding_redweasel/tight_binding.py
@@ -27,11 +27,6 @@ class TightBindingModel:
         param_count = len(neighbors)
         if not self.sym.inversion:
             param_count = param_count * 2 - 1 # add separate sin Terms
-        else:
-            # make the onsite matrix blockdiagonal
-            n = unitary_repr.inv_split
-            self.params[0][:n,n:] = 0
-            self.params[0][n:,:n] = 0
         # check params
         if params is not None:
             assert np.shape(unitary_repr.U)[1] == np.shape(params)[1]
@@ -42,6 +37,11 @@ class TightBindingModel:
             assert pshape[0] == param_count
         else:
             self.params = np.zeros((param_count,) + (np.shape(unitary_repr.U)[1],)*2, dtype=np.complex128)
+        if self.sym.inversion:
+            # make the onsite matrix blockdiagonal
+            n = unitary_repr.inv_split
+            self.params[0][:n,n:] = 0
+            self.params[0][n:,:n] = 0
         # TODO sanity checks for symmetrically equivalent neighbors (those are not allowed)
     
     def band_count(self):
-- 
2.43.0


From 79f6f3b7177c49f637d928f05e0d14f00597b27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:25 +0000
Subject: [PATCH 09/48] fix: TightBindingModel.copy passes the arguments the
 constructor takes

---
 src/tight_binding_redweasel/tight_binding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/tight_binding.py b/src/tight_binding_redweasel/tight_binding.py
index 0972564..1fbbc72 100644
--- a/src/tight_binding_redweasel/tight_binding.py
+++ b/src/tight_binding_redweasel/tight_binding.py
@@ -486,7 +486,7 @@ class TightBindingModel:
         return bands, grads, hess1 - 2*hess2
 
     def copy(self):
-        return TightBindingModel(self.f_i, self.df_i, self.params.copy())
+        return TightBindingModel(self.unitary_repr.copy(), self.neighbors, self.params)
     
     # make a tight binding model for a supercell with [nx, ny, nz] = repeats
     def copy_transformed(self, transform):
-- 
2.43.0


From bac2519f41fe0d45a97e5075bed5470e20c44588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:58 +0000
Subject: [PATCH 10/48] fix: tetragonal_bc_points no longer replaces the global
 table of symmetry points

---
 src/tight_binding_redweasel/kpaths.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/kpaths.py b/src/tight_binding_redweasel/kpaths.py
index 378fda8..6fac562 100644
--- a/src/tight_binding_redweasel/kpaths.py
+++ b/src/tight_binding_redweasel/kpaths.py
@@ -28,6 +28,7 @@ points['M2d'] = (0.5 * np.array([1, 1]), 'M')  # Sigma line
 # 1D points
 points['G1d'] = (0.5 * np.array([0]), 'Γ')
 points['X1d'] = (0.5 * np.array([1]), 'X')
+cubic_points = points
 
 
 class KPath(Sequence):
@@ -406,8 +407,7 @@ def tetragonal_bc_points(c: float) -> dict:
         dict: _description_
     """
     if c == 1:
-        global points
-        return points  # cubic, is contained in the global points dict
+        return cubic_points  # cubic, is contained in the global points dict
     points = {}
     points['G'] = (np.zeros(3), 'Γ')
     points['X'] = (np.array([0.5, 0.5, 0]), 'X')
-- 
2.43.0


From 69d3a32eba8db351d588e1841e4c35ac8deb2a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:58 +0000
Subject: [PATCH 11/48] fix: AsymTightBindingModel.save restores the print
 options when writing fails

---
 src/tight_binding_redweasel/tight_binding_asym.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/tight_binding_redweasel/tight_binding_asym.py b/src/tight_binding_redweasel/tight_binding_asym.py
index 75724a0..e72ea53 100644
--- a/src/tight_binding_redweasel/tight_binding_asym.py
+++ b/src/tight_binding_redweasel/tight_binding_asym.py
@@ -256,13 +256,10 @@ class AsymTightBindingModel:
                 raise ValueError("unrecognised format for file " + filename)
         if format not in {"json"}:
             raise ValueError('only supported format is "json"')
-        opt = np.get_printoptions()
-        np.set_printoptions(precision=None, suppress=False, floatmode="unique", threshold=100000, legacy='1.21')
-        if format == "json":
-            json_tb_format.save(filename, self.H.neighbors, self.H.H_r)
-            # TODO save the S matrix part as well, maybe in a separate file? Or extend the format...
-
-        np.set_printoptions(**opt)  # reset printoptions
+        with np.printoptions(precision=None, suppress=False, floatmode="unique", threshold=100000, legacy='1.21'):
+            if format == "json":
+                json_tb_format.save(filename, self.H.neighbors, self.H.H_r)
+                # TODO save the S matrix part as well, maybe in a separate file? Or extend the format...
 
     @staticmethod
     def load(filename: str, format=None) -> Self:
-- 
2.43.0


From 2ab95993b1eaf6820244fa65fb8721bc36cbbb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:58 +0000
Subject: [PATCH 12/48] fix: BandStructureModel.save restores the print options
 when writing fails

---
 src/tight_binding_redweasel/bandstructure.py | 31 ++++++++++----------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/tight_binding_redweasel/bandstructure.py b/src/tight_binding_redweasel/bandstructure.py
index 525b854..2b90996 100644
--- a/src/tight_binding_redweasel/bandstructure.py
+++ b/src/tight_binding_redweasel/bandstructure.py
@@ -681,21 +681,22 @@ class BandStructureModel:
                 'supported formats are "python", "json" and "wannier90"')
         opt = np.get_printoptions()
         np.set_printoptions(precision=None, suppress=False, floatmode="unique", threshold=100000, legacy='1.21')
-        if format == "python":
-            with open(filename, "w") as file:
-                assert self.sym is not None, "BandStructureModel needs a symmetry to save in this format."
-                file.write(repr(self.params_complex()) + ",\\\n")
-                file.write(repr(self.neighbors) + ",\\\n")
-                file.write(repr(self.sym.S) + ",\\\n")
-                file.write(repr(self.sym.inversion) + "\n")
-        elif format == "wannier90":
-            tb_fmt.save_hr(filename, self.neighbors, self.params_complex())
-        elif format == "json":
-            json_tb_format.save(filename, self.neighbors,
-                                self.params_complex())
-
-        # reset printoptions to what they were before
-        np.set_printoptions(**opt)
+        try:
+            if format == "python":
+                with open(filename, "w") as file:
+                    assert self.sym is not None, "BandStructureModel needs a symmetry to save in this format."
+                    file.write(repr(self.params_complex()) + ",\\\n")
+                    file.write(repr(self.neighbors) + ",\\\n")
+                    file.write(repr(self.sym.S) + ",\\\n")
+                    file.write(repr(self.sym.inversion) + "\n")
+            elif format == "wannier90":
+                tb_fmt.save_hr(filename, self.neighbors, self.params_complex())
+            elif format == "json":
+                json_tb_format.save(filename, self.neighbors,
+                                    self.params_complex())
+        finally:
+            # reset printoptions to what they were before
+            np.set_printoptions(**opt)
 
     @staticmethod
     def load(filename: str, format=None, cos_reduced=False, exp=True) -> 'BandStructureModel':
-- 
2.43.0


From 5073cec61e74d930835335ce3b42f5f70f21cb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:20 +0000
Subject: [PATCH 13/48] fix: HamiltonianSymmetry.copy passes the arguments the
 constructor takes and copies the translation

---
 src/tight_binding_redweasel/hamiltonian_symmetry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/hamiltonian_symmetry.py b/src/tight_binding_redweasel/hamiltonian_symmetry.py
index cbb4012..be8b013 100644
--- a/src/tight_binding_redweasel/hamiltonian_symmetry.py
+++ b/src/tight_binding_redweasel/hamiltonian_symmetry.py
@@ -58,11 +58,11 @@ class HamiltonianSymmetry:
         return sum((u.dim() for u in self.U))
     
     def copy(self) -> Self:
-        u_repr = HamiltonianSymmetry(self.sym.copy(), 1)
-        u_repr.inv = np.array(self.inv)
+        u_repr = HamiltonianSymmetry(self.sym.copy())
         u_repr.U = [u.copy() for u in self.U]
         u_repr.pos = [x.copy() for x in self.pos]
         u_repr.names = self.names.copy()
+        u_repr.translation = self.translation.copy()
         return u_repr
     
     def __len__(self):
-- 
2.43.0


From 9fb23e7c940afcdd49aa7529affb1c3b2b15f39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:20 +0000
Subject: [PATCH 14/48] fix: UnitaryRepresentation.__mul__ no longer takes the
 length of a representation

---
 src/tight_binding_redweasel/unitary_representations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/unitary_representations.py b/src/tight_binding_redweasel/unitary_representations.py
index eca4cbb..3267fe1 100644
--- a/src/tight_binding_redweasel/unitary_representations.py
+++ b/src/tight_binding_redweasel/unitary_representations.py
@@ -502,7 +502,7 @@ class UnitaryRepresentation:
             # this is only supported if one of the representations has inv_split at 0 or dim.
             if rhs.inv_split == 0 or rhs.inv_split == rhs.dim():
                 # case 1: kron is ordered correctly
-                for i in range(len(res)):
+                for i in range(len(res.U)):
                     res.U[i] = np.kron(self.U[i], res.U[i])
                 res.inv_split = self.inv_split * rhs.dim()
                 if rhs.inv_split == 0:
@@ -512,7 +512,7 @@ class UnitaryRepresentation:
             elif self.inv_split == 0 or self.inv_split == self.dim():
                 # case 2: kron is flipped
                 # TODO make the kron in linalg do this loop correctly and generally
-                for i in range(len(res)):
+                for i in range(len(res.U)):
                     res.U[i] = np.kron(res.U[i], self.U[i])
                 res.inv_split *= self.dim()
                 if self.inv_split == 0:
-- 
2.43.0


From 9f88763eed346e3dda6245ad77dbd1a54e030889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:20 +0000
Subject: [PATCH 15/48] fix: slater_koster can be imported (typing has no
 tuple)

---
 src/tight_binding_redweasel/slater_koster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/slater_koster.py b/src/tight_binding_redweasel/slater_koster.py
index 7d29fd9..7179988 100644
--- a/src/tight_binding_redweasel/slater_koster.py
+++ b/src/tight_binding_redweasel/slater_koster.py
@@ -5,7 +5,7 @@ from . import hamiltonian_symmetry as _hsym
 from . import kpaths as _kpaths
 from . import unitary_representations as _urepr
 from . import linalg as _lin
-from typing import Callable, tuple, Self
+from typing import Callable, Self
 
 # This is an implementation of a pure Slater-Koster
 # tight-binding interpolation model.
-- 
2.43.0


From fe3d2f3f6cd895b163c4e139e9ad33e1933ed542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:20 +0000
Subject: [PATCH 16/48] fix: AsymTightBindingModel.optimize(train_S=True)
 computes the overlap instead of overwriting the hamiltonian

---
 src/tight_binding_redweasel/tight_binding_asym.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/tight_binding_asym.py b/src/tight_binding_redweasel/tight_binding_asym.py
index e72ea53..4522a50 100644
--- a/src/tight_binding_redweasel/tight_binding_asym.py
+++ b/src/tight_binding_redweasel/tight_binding_asym.py
@@ -447,7 +447,7 @@ class AsymTightBindingModel:
                 H = np.einsum("nkl,in->ikl", self.H.H_r, batch_f_i)
                 H += np.conj(np.swapaxes(H, -1, -2))
                 if train_S:
-                    H = np.einsum("nkl,in->ikl", self.S.H_r, batch_s_f_i)
+                    S = np.einsum("nkl,in->ikl", self.S.H_r, batch_s_f_i)
                     S += np.conj(np.swapaxes(S, -1, -2))
                 eigvals, eigvecs = geigh(H, S)
                 eigvals = eigvals[:, band_offset:][:, :len(batch_ref[0])]
-- 
2.43.0


From bcd6d27cacd3ab60e67d494fab041bb65cde1060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:20 +0000
Subject: [PATCH 17/48] fix: _integration_weights returns points and weights
 for a single point too

---
 src/tight_binding_redweasel/bulk_properties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/bulk_properties.py b/src/tight_binding_redweasel/bulk_properties.py
index 3751b84..97de6c5 100644
--- a/src/tight_binding_redweasel/bulk_properties.py
+++ b/src/tight_binding_redweasel/bulk_properties.py
@@ -133,7 +133,7 @@ def _integration_points(fermi_energy: float, T_min: float, T_max: float, N: int)
 def _integration_weights(x: np.ndarray, beta_j: np.ndarray, mu_j: np.ndarray, E_min: float, E_max: float, rtol=1e-4):
     assert len(x) % 2 == 1
     if len(x) == 1:
-        return np.array([1.0])
+        return x, np.ones((len(beta_j), 1))
     b = [2 * scipy.special.zeta(n) * (1 - 2**(1 - n)) if n % 2 == 0 else 0 for n in range(len(x))]
     I_nj = lambda n, j: beta_j[j]**(-n) * b[n]
     # sum_i X_ijn w_ij = I_jn
-- 
2.43.0


From 95c22462318d876b6f5dfa97eae909d0b72d368d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:20 +0000
Subject: [PATCH 18/48] fix: KIntegral of an insulator at T=0 has no
 integration points instead of raising AttributeError

---
 src/tight_binding_redweasel/bulk_properties.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/bulk_properties.py b/src/tight_binding_redweasel/bulk_properties.py
index 97de6c5..1815ddf 100644
--- a/src/tight_binding_redweasel/bulk_properties.py
+++ b/src/tight_binding_redweasel/bulk_properties.py
@@ -212,7 +212,8 @@ class KIntegral:
                 self.integration_weights = np.array([[1]])
             else:
                 # no e_smpl, all integrals are empty for T=0
-                pass
+                self.e_smpl = np.zeros(0)
+                self.integration_weights = np.zeros((len(T), 0))
         self.e_smpl = np.array(self.e_smpl)
         for e in self.e_smpl:
             k_smpl, band_indices, weights, _ = dos_model.fermi_surface_samples(e, improved_points=improved_points, improved_weights=False, normalize=None)
-- 
2.43.0


From 58ee4c8bd3d7e388015bbc3d23f6b191f10b92bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:41 +0000
Subject: [PATCH 19/48] fix: UnitaryRepresentation.__mul__ can hold the
 matrices of the product

---
 src/tight_binding_redweasel/unitary_representations.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/tight_binding_redweasel/unitary_representations.py b/src/tight_binding_redweasel/unitary_representations.py
index 3267fe1..052f2a7 100644
--- a/src/tight_binding_redweasel/unitary_representations.py
+++ b/src/tight_binding_redweasel/unitary_representations.py
@@ -502,8 +502,7 @@ class UnitaryRepresentation:
             # this is only supported if one of the representations has inv_split at 0 or dim.
             if rhs.inv_split == 0 or rhs.inv_split == rhs.dim():
                 # case 1: kron is ordered correctly
-                for i in range(len(res.U)):
-                    res.U[i] = np.kron(self.U[i], res.U[i])
+                res.U = np.array([np.kron(self.U[i], res.U[i]) for i in range(len(res.U))])
                 res.inv_split = self.inv_split * rhs.dim()
                 if rhs.inv_split == 0:
                     # flip inversion symmetry if self has it
@@ -512,8 +511,7 @@ class UnitaryRepresentation:
             elif self.inv_split == 0 or self.inv_split == self.dim():
                 # case 2: kron is flipped
                 # TODO make the kron in linalg do this loop correctly and generally
-                for i in range(len(res.U)):
-                    res.U[i] = np.kron(res.U[i], self.U[i])
+                res.U = np.array([np.kron(res.U[i], self.U[i]) for i in range(len(res.U))])
                 res.inv_split *= self.dim()
                 if self.inv_split == 0:
                     # flip inversion symmetry if self has it
-- 
2.43.0


From db4e5952dafb0a0896ea9a8f6403cb2abc0e44df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:23 +0000
Subject: [PATCH 20/48] fix: the name of a crystal is quoted before it reaches
 a shell

---
 .../qespresso_interface.py                      | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/tight_binding_redweasel/qespresso_interface.py b/src/tight_binding_redweasel/qespresso_interface.py
index 1edbb5c..0ee8737 100644
--- a/src/tight_binding_redweasel/qespresso_interface.py
+++ b/src/tight_binding_redweasel/qespresso_interface.py
@@ -67,6 +67,7 @@ plt.show()
 
 import os
 import re
+import shlex
 import subprocess
 from sys import platform
 import numpy as np
@@ -862,10 +863,11 @@ class QECrystal:
     # ----- execution of QUANTUM ESPRESSO -----
 
     def _run(self, program, name):
-        os.system(mpi_run + f'{program}{"" if platform == "win32" else ".x"} -nk {self.nk} -nd {self.nd} -nt {self.nt} -in {self.name}.{name}.in | tee {self.name}.{name}.out')
+        path = shlex.quote(f"{self.name}.{name}")
+        os.system(mpi_run + f'{program}{"" if platform == "win32" else ".x"} -nk {int(self.nk)} -nd {int(self.nd)} -nt {int(self.nt)} -in {path}.in | tee {path}.out')
     
     def _run_simple(self, program, args, out_file):
-        os.system(f'{program}{"" if platform == "win32" else ".x"} {args} | tee {out_file}')
+        os.system(f'{program}{"" if platform == "win32" else ".x"} {args} | tee {shlex.quote(out_file)}')
 
     def scf(self, k_grid_size, k_grid_size2=None, k_grid_size3=None):
         """Do a self consistent field calculation (solving the Kohn-Sham equations).
@@ -1132,7 +1134,8 @@ begin atoms_frac
 """)
         # doesn't completely work for high resolutions...
         print(f"computing dielectric function for {self.name}")
-        os.system(mpi_run + f'epsilon{"" if platform == "win32" else ".x"} < {self.name}.epsilon.in | tee {self.name}.epsilon.out')
+        path = shlex.quote(f"{self.name}.epsilon")
+        os.system(mpi_run + f'epsilon{"" if platform == "win32" else ".x"} < {path}.in | tee {path}.out')
     
     def read_dielectric_function(self):
         # read the dielectric function after having computed it with `dielectric_function`
@@ -1253,7 +1256,7 @@ mp_grid = {grid_size} {grid_size} {grid_size}
         # generate a list of required overlaps (written to {name}.nnkp)
         # for some reason mpirun doesn't work...
         #os.system(mpi_run + f"wannier90.x -pp {self.name}")
-        self._run_simple('wannier90', f"-pp {self.name}", f"{self.name}.wout")
+        self._run_simple('wannier90', f"-pp {shlex.quote(self.name)}", f"{self.name}.wout")
 
     # compute the overlaps of the wavefunctions from the nscf calculation, to be used by wannierization
     # use this after using prepare_wannier()
@@ -1281,7 +1284,7 @@ mp_grid = {grid_size} {grid_size} {grid_size}
         # written to {name}.mmn and {name}.amn
         # parallel execution doesn't work for some reason...
         #os.system(mpi_run + f"wannier90.x {self.name}")
-        self._run_simple('wannier90', f"{self.name}", f"{self.name}.wout")
+        self._run_simple('wannier90', shlex.quote(self.name), f"{self.name}.wout")
 
     # rerun wannier90 to get the bands of the last computed wannier90 tight binding on a kpath
     # bands_num_points: then the number of points along the first section of the bandstructure plot given by kpath
@@ -1329,7 +1332,7 @@ mp_grid = {grid_size} {grid_size} {grid_size}
         # generate a list of required overlaps (written to {name}.nnkp)
         # for some reason mpirun doesn't work...
         #os.system(mpi_run + f"wannier90.x -pp {self.name}")
-        self._run_simple('wannier90', self.name, f"{self.name}.wout")
+        self._run_simple('wannier90', shlex.quote(self.name), f"{self.name}.wout")
 
     def plot_wannier_bands(self):
         from matplotlib import pyplot as plt
@@ -1348,7 +1351,7 @@ outdir='./qe-data/'
 /
 """)
         self._run("fs", "fs")
-        os.system(f"xcrysden --bxsf {self.name}_fs.bxsf > /dev/null")
+        os.system(f"xcrysden --bxsf {shlex.quote(self.name)}_fs.bxsf > /dev/null")
 
 
 def from_disk(name: str, read_output=True, prepare_pseudopotentials=False) -> QECrystal:
-- 
2.43.0


From 42b9d1eb899fc514e7fcbc9567bd42df83e1388b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:23 +0000
Subject: [PATCH 21/48] fix: qe_prepare checks the whole file name before it
 reaches a shell

---
 src/tight_binding_redweasel/qespresso_interface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/qespresso_interface.py b/src/tight_binding_redweasel/qespresso_interface.py
index 0ee8737..d1cb036 100644
--- a/src/tight_binding_redweasel/qespresso_interface.py
+++ b/src/tight_binding_redweasel/qespresso_interface.py
@@ -109,8 +109,8 @@ def qe_prepare(pseudo_potential_files_dict=None):
             file = name + ".rel-pbesol-n-kjpaw_psl.1.0.0.UPF"
             pseudo_potential_files_dict[name] = file
         if not os.path.isfile("./pseudo/" + file):
-            # TODO sanitize "file" -> otherwise command injection is possible
-            if re.match(r"[a-zA-Z0-9\.\-]", file) is None:
+            # sanitize "file" -> otherwise command injection is possible
+            if re.fullmatch(r"[a-zA-Z0-9_\.\-]+", file) is None:
                 print("skipped file", file, "because it contains incompatible characters")
                 continue
             res = subprocess.run("wget https://pseudopotentials.quantum-espresso.org/upf_files/" + file, cwd="./pseudo", shell=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
-- 
2.43.0


From 9a59d5b8ce64a935b146fcef66ebcf9defe13863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:52 +0000
Subject: [PATCH 22/48] fix: convolve_ddf has the sign of the right
 extrapolation

---
 src/tight_binding_redweasel/density_of_states.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index 9c2eb21..1a9b12c 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -112,10 +112,10 @@ def convolve_ddf(x, energy_smpl: np.ndarray, states: np.ndarray, beta: float, ex
     if extrapolation == 'flat':
         if extrapolation_point is None:
             s += df(x - energy_smpl[0]) * states[..., 0]
-            s += df(energy_smpl[-1] - x) * states[..., -1]
+            s -= df(energy_smpl[-1] - x) * states[..., -1]
         else:
             # assume N(mu) starts at 0 and ends at N(extrapolation_point[0]) = extrapolation_point[1]
-            s += df(extrapolation_point[0] - x) * extrapolation_point[1]
+            s -= df(extrapolation_point[0] - x) * extrapolation_point[1]
     return s
 
 
-- 
2.43.0


From af3f7d27d9f0714e40bfacb41b0a1b19f5db8669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:47 +0000
Subject: [PATCH 23/48] fix: symmetry groups containing -1 in even dimensions
 don't count every element twice

---
 src/tight_binding_redweasel/symmetry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index 5b9a707..87b9f8e 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -96,7 +96,7 @@ class Symmetry:
                 # self.S = np.array([s for s in self.S if next((x for x in np.ravel(s) if abs(x) > 1e-4), 1) > 0])
                 # here inversion can be a problem, as it may be in the center, but it's not always a normal subgroup!
                 # for now, disable the inversion symmetry reduction in even dimensions.
-                pass
+                self.inversion = False
         elif inversion and len(self.S[0]) % 2 == 0:
             # realize inversion in even dimensions
             self.S = np.concatenate([self.S, -self.S], axis=0)
-- 
2.43.0


From 524b000f447c5a6bb51fce2afa997e121b229a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:47 +0000
Subject: [PATCH 24/48] fix: transpose of a projective symmetry group stays
 projective

---
 src/tight_binding_redweasel/symmetry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index 87b9f8e..4cd1e3e 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -129,7 +129,7 @@ class Symmetry:
 
     def transpose(self) -> 'Symmetry':
         """Get the symmetry with all the symmetry operations transposed. That is the symmetry group for the dual lattice/vector space."""
-        return Symmetry(np.array(np.swapaxes(self.S, -1, -2)), self.inversion)
+        return Symmetry(np.array(np.swapaxes(self.S, -1, -2)), self.inversion, self.projective)
 
     def __eq__(self, other: 'Symmetry') -> bool:
         if self.dim() != other.dim():
-- 
2.43.0


From 0bcfe9c46ca2612da15023bd6bc3f8f7aa999eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:47 +0000
Subject: [PATCH 25/48] fix: projective symmetry groups of any dimension can be
 transformed

---
 src/tight_binding_redweasel/symmetry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index 4cd1e3e..8ee5150 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -225,7 +225,7 @@ class Symmetry:
         if self.projective:
             assert np.shape(basis_transform) == (self.dim() - 1,) * 2, "basis_transform needs to be a square matrix with matching dimension"
             # TODO test!
-            basis_transform = np.block([[basis_transform, np.zeros((3, 1))], [np.zeros((1, 3)), np.eye(1)]])
+            basis_transform = np.block([[basis_transform, np.zeros((self.dim() - 1, 1))], [np.zeros((1, self.dim() - 1)), np.eye(1)]])
         else:
             assert np.shape(basis_transform) == (self.dim(),) * 2, "basis_transform needs to be a square matrix with matching dimension"
         S = np.einsum("nij,mi,jk->nmk", self.S,
-- 
2.43.0


From 393cc7288bf8960ece2f4363e8f12d1515140f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:04 +0000
Subject: [PATCH 26/48] fix: DensityOfStates.energy integrates bands below the
 chemical potential up to their end only

---
 src/tight_binding_redweasel/density_of_states.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index 1a9b12c..911d21f 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -610,7 +610,8 @@ class DensityOfStates:
                 # Romberg extrapolation with just one more step -> ~ Simpson rule.
                 # this assumes that the density is continuous, which is the case for 3D bandstructures.
                 int2 = np.sum((states[:-2:2] + states[2::2])/2 * (e_smpl[2::2] - e_smpl[:-2:2]))
-                energy += mu * states[-1] - (int1 + (int1 - int2)/(4 - 1))
+                # the integral ends at the last sample, above it a full band has no states left
+                energy += e_smpl[-1] * states[-1] - (int1 + (int1 - int2)/(4 - 1))
         # TODO allow more than one T to be used!
         if T <= 0.0:
             # this part is pretty well convergent
-- 
2.43.0


From 50005be6db4e61600134cfefdc3691b4c6f152dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:46 +0000
Subject: [PATCH 27/48] fix: Symmetry.symmetrize includes the inversion of the
 group

---
 src/tight_binding_redweasel/symmetry.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index 8ee5150..7808116 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -844,13 +844,14 @@ class Symmetry:
         in_letters = letters[:rank[0] + rank[1]]
         out_letters = letters[-rank[0] - rank[1]:]
         einsum_str = ",".join([b + a if i < rank[0] else a + b for i, (a, b) in enumerate(zip(in_letters, out_letters))] + [in_letters]) + "->" + out_letters
-        for s in self.S:
+        operations = self.get_symmetry_operations()
+        for s in operations:
             inv_s = np.linalg.inv(s)
             sign = 1
             if pseudo_tensor:
                 sign = np.sign(np.linalg.det(s))  # what happens with unitary groups where this can be from U(1)?
             res += np.einsum(einsum_str, *rank[0] * (inv_s,), *rank[1] * (s,), orig * sign, optimize="optimal")
-        res /= len(self.S)
+        res /= len(operations)
         return res
 
     def equivalence_classes(self, equiv_relation: Callable[[np.ndarray, np.ndarray], bool]) -> list:
-- 
2.43.0


From 7adc9f1bd744591b81f24e892f05da476cb0f287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:46 +0000
Subject: [PATCH 28/48] fix: Symmetry.check_symmetry checks the inversion as
 well

---
 src/tight_binding_redweasel/symmetry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index 7808116..add4cbb 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -514,7 +514,7 @@ class Symmetry:
         r_smpl = np.random.random((50, len(self.S[0])))
         for r in r_smpl:
             values = []
-            for s in self.S:
+            for s in self.get_symmetry_operations():
                 values.append(foo(s @ r))
             if np.linalg.norm(np.std(values, axis=0)) > tolerance:
                 if verbose:
-- 
2.43.0


From c67976582f6f603205b90a062144b4291d697f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:46 +0000
Subject: [PATCH 29/48] fix: reduce_symmetric_data finds equivalent points
 between points of almost equal length

---
 src/tight_binding_redweasel/symmetry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index add4cbb..7ac27bd 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -666,7 +666,7 @@ class Symmetry:
         assert self.is_orthogonal(), "The algorithm here only works for orthogonal symmetry operations"
         # this stable works really well
         order = np.argsort(np.round(np.linalg.norm(
-            reduced_k, axis=-1)**2, 2), kind='stable')
+            reduced_k, axis=-1)**2, 9), kind='stable')
         reduced_k = list(reduced_k[order])
         reduced = list(reduced[order])
         i = 0
-- 
2.43.0


From 8af89426a4430041bbe7016ada3441ee76835ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:46 +0000
Subject: [PATCH 30/48] fix: Symmetry.check_neighbors uses the matrices of the
 group

---
 src/tight_binding_redweasel/symmetry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index 7ac27bd..e2b6a35 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -743,7 +743,7 @@ class Symmetry:
         neighbors = neighbors[np.argsort(np.linalg.norm(neighbors, axis=-1))]
         count = [0] * len(neighbors)
         for i, r in enumerate(neighbors):
-            for s in zip(self.S):
+            for s in self.S:
                 # using transposed symmetry operations, as the whole symmetry is meant to be in k-space
                 r_ = np.transpose(s) @ r
                 # here only the neighbors with an index similar to i need to be checked
-- 
2.43.0


From f3d5c032f4dd5afda0c4ba8a5939012545a7a5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:46 +0000
Subject: [PATCH 31/48] fix: Symmetry.find_classes includes the inversion of
 the group

---
 src/tight_binding_redweasel/symmetry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index e2b6a35..e20023e 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -813,7 +813,7 @@ class Symmetry:
         # build the symmetry graph for the neighbor list
         for i, r in enumerate(points):
             rep_class = set()
-            for s in self.S:
+            for s in self.get_symmetry_operations():
                 r_ = s @ r
                 dist = np.linalg.norm(points - r_[None, :], axis=-1)
                 j = np.argmin(dist)
-- 
2.43.0


From 66beccd10202787ffdc0b915c69a7a2b78417eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:46 +0000
Subject: [PATCH 32/48] fix: UnitaryRepresentation.symmetrizer works without
 inversion and without an on-site matrix

---
 .../unitary_representations.py                     | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/tight_binding_redweasel/unitary_representations.py b/src/tight_binding_redweasel/unitary_representations.py
index 052f2a7..9c6213e 100644
--- a/src/tight_binding_redweasel/unitary_representations.py
+++ b/src/tight_binding_redweasel/unitary_representations.py
@@ -288,14 +288,14 @@ class UnitaryRepresentation:
             if c != len(self.sym.S):
                 raise ValueError("neighbors need to be choosen to fit the symmetry, however counting occurences has found the numbers " + str(count))
         # task_list_r0 should only contain one index, so check that and simplify
-        task_list_r0 = tuple(np.reshape(task_list_r0, (-1, 3)).T)
-        assert np.all(task_list_r0[0] == task_list_r0[1]) and np.all(task_list_r0[0][0] == task_list_r0[0])
-        r0_index = task_list_r0[0][0] if len(task_list_r0) else None
+        r0_index = None
+        if task_list_r0:
+            task_list_r0 = tuple(np.reshape(task_list_r0, (-1, 3)).T)
+            assert np.all(task_list_r0[0] == task_list_r0[1]) and np.all(task_list_r0[0][0] == task_list_r0[0])
+            r0_index = task_list_r0[0][0]
         # the rest can stay as is, just numpyify them
-        task_list_rinv = np.reshape(task_list_rinv, (-1, 3))
-        task_list_rinv = tuple(task_list_rinv[np.array([i in classes for i in task_list_rinv[:,0]])].T)
-        task_list_r = np.reshape(task_list_r, (-1, 3))
-        task_list_r = tuple(task_list_r[np.array([i in classes for i in task_list_r[:,0]])].T)
+        task_list_rinv = tuple(np.array([t for t in task_list_rinv if t[0] in classes], dtype=np.int64).reshape(-1, 3).T)
+        task_list_r = tuple(np.array([t for t in task_list_r if t[0] in classes], dtype=np.int64).reshape(-1, 3).T)
         class_copy = []
         class_invcopy = []
         for i, class_other in classes.items():
-- 
2.43.0


From 6a262fa60220fdca63f98e436231aa4713f4d9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:46 +0000
Subject: [PATCH 33/48] fix: realize_symmetric_matrices transforms with U_S
 (not its inverse) and with the inversion

---
 src/tight_binding_redweasel/unitary_representations.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/unitary_representations.py b/src/tight_binding_redweasel/unitary_representations.py
index 9c6213e..1f69aca 100644
--- a/src/tight_binding_redweasel/unitary_representations.py
+++ b/src/tight_binding_redweasel/unitary_representations.py
@@ -395,9 +395,14 @@ class UnitaryRepresentation:
                         continue
                     used_k.append(k_)
                     if inverse:
-                        full.append(u @ data @ np.conj(u.T))
+                        mat = np.conj(u.T) @ data @ u
                     else:
-                        full.append(np.conj(u.T) @ data @ u)
+                        mat = u @ data @ np.conj(u.T)
+                    if inv < 0:
+                        # apply U_I
+                        mat[:self.inv_split,self.inv_split:] *= -1
+                        mat[self.inv_split:,:self.inv_split] *= -1
+                    full.append(mat)
                     full_k.append(k_)
         # sort by x, y, z compatible with reshape to meshgrid
         full_k = np.array(full_k)
-- 
2.43.0


From 4af4f45d5bdfa9706f71c44e8f39294fecabb4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:46 +0000
Subject: [PATCH 34/48] fix: HamiltonianSymmetry.apply transforms with the
 phases of the orbital positions, inversion only on request

---
 .../hamiltonian_symmetry.py                   | 33 ++++++++++---------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/tight_binding_redweasel/hamiltonian_symmetry.py b/src/tight_binding_redweasel/hamiltonian_symmetry.py
index be8b013..4ed188a 100644
--- a/src/tight_binding_redweasel/hamiltonian_symmetry.py
+++ b/src/tight_binding_redweasel/hamiltonian_symmetry.py
@@ -24,7 +24,7 @@ class HamiltonianSymmetry:
     There is an additional phase added to each individual unitary representation.
     The total symmetry can be expressed as:
 
-    `H((S^T)^{-1} k) = U_S H(k) U^+_S exp(2πik(1+S)(r_1-r_2))`
+    `H((S^T)^{-1} k) = U_S H(k) U^+_S exp(2πi(k-(S^T)^{-1}k)(r_2-r_1))`
 
     In solid state physics, the most important example for this
     is the **system hamiltonian**, which gives the class its name.
@@ -241,7 +241,7 @@ class HamiltonianSymmetry:
         """Apply the unitary transformation for one symmetry operation
         at the given k-point to the hermitian operator to get
 
-        `H((S^T)^{-1} k) = U_S H(k) U^+_S exp(2πik(1+S)(r_1-r_2))`
+        `H((S^T)^{-1} k) = U_S H(k) U^+_S exp(2πi(k-(S^T)^{-1}k)(r_2-r_1))`
 
         Args:
             k (arraylike): The spacial point
@@ -251,21 +251,23 @@ class HamiltonianSymmetry:
                                         (not covered by the index alone). Defaults to False.
 
         Returns:
-            arraylike(dim, dim): the resulting hermitian operator `U_S H(k) U^+_S exp(ik(1+S)(r_1-r_2))`
+            arraylike(dim, dim): the resulting hermitian operator `U_S H(k) U^+_S exp(2πi(k-(S^T)^{-1}k)(r_2-r_1))`
         """
         # apply inversion first, as that is the simple part
         hamiltonian_inv = np.array(hamiltonian)
-        n1 = 0
-        for u1, r1 in zip(self.U, self.pos):
-            d1 = u1.dim()
-            u1 = 1 if u1.inv_split > 0 else -1
-            if u1 < 0:
-                # TODO use r1 !?!
-                hamiltonian_inv[n1:n1+d1,:] *= -1
-                hamiltonian_inv[:,n1:n1+d1] *= -1
+        if inversion:
+            n1 = 0
+            for u1 in self.U:
+                d1 = u1.dim()
+                if u1.inv_split <= 0:
+                    hamiltonian_inv[n1:n1+d1,:] *= -1
+                    hamiltonian_inv[:,n1:n1+d1] *= -1
+                n1 += d1
         # now apply the symmetry operation
-        result = np.zeros_like(hamiltonian)
-        s = self.sym.S[s_index]
+        result = np.zeros(np.shape(hamiltonian), dtype=np.complex128)
+        k = np.asarray(k)
+        dk = np.linalg.inv(self.sym.S[s_index]).T @ k
+        dk = k + dk if inversion else k - dk
         n1 = 0
         for u1, r1 in zip(self.U, self.pos):
             d1 = u1.dim()
@@ -274,8 +276,7 @@ class HamiltonianSymmetry:
                 d2 = u2.dim()
                 u1_ = u1.U[s_index]
                 u2_ = u2.U[s_index]
-                fac = np.exp(2j*np.pi * k @ (r1 - s @ r2)) # TODO check again!
-                fac *= np.exp(-2j*np.pi * k @ (r2 - s @ r1))
+                fac = np.exp(2j*np.pi * dk @ (np.asarray(r2) - np.asarray(r1)))
                 result[n1:n1+d1,n2:n2+d2] += fac * u1_ @ hamiltonian_inv[n1:n1+d1,n2:n2+d2] @ np.conj(u2_.T)
                 n2 += d2
             n1 += d1
@@ -541,7 +542,7 @@ class HamiltonianSymmetry:
             used_k = [k]
             for inv in [1, -1] if self.sym.inversion else [1]:
                 for s_index, s in enumerate(self.sym.S):
-                    k_ = s @ k * inv
+                    k_ = np.linalg.inv(s).T @ k * inv
                     # * this is why this algorithm is asymtotically slow
                     if np.min(np.linalg.norm(used_k - k_.reshape(1, -1), axis=-1)) < scale * 1e-6:
                         continue
-- 
2.43.0


From a8849472c820b38b157843335da2a3e3e892d707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:44 +0000
Subject: [PATCH 35/48] fix: TightBindingModel.optimize evaluates its loss with
 one weight per band

---
 src/tight_binding_redweasel/tight_binding.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/tight_binding.py b/src/tight_binding_redweasel/tight_binding.py
index 1fbbc72..f299ba7 100644
--- a/src/tight_binding_redweasel/tight_binding.py
+++ b/src/tight_binding_redweasel/tight_binding.py
@@ -387,12 +387,12 @@ class TightBindingModel:
 
                 if iteration % 100 == 0:
                     #print(f"loss: {new_loss:.2e} alpha: {alpha:.1e}")
-                    l = self.loss(k_smpl, ref_bands, weights, band_offset)
+                    l = self.loss(k_smpl, ref_bands, weights[0], band_offset)
                     print(f"\rloss: {l:.2e}", end="")
         except KeyboardInterrupt:
             print("\naborted")
         self.normalize()
-        l = self.loss(k_smpl, ref_bands, weights, band_offset)
+        l = self.loss(k_smpl, ref_bands, weights[0], band_offset)
         print(f"\rfinal loss: {l:.2e}")
 
     def normalize(self):
-- 
2.43.0


From 9bf0bd74ed5ce076fa3fe3367f506b8e0369f497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:52 +0000
Subject: [PATCH 36/48] fix: an interruption before the first step of a fit is
 logged as well

---
 src/tight_binding_redweasel/bandstructure.py      | 2 ++
 src/tight_binding_redweasel/tight_binding_asym.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/tight_binding_redweasel/bandstructure.py b/src/tight_binding_redweasel/bandstructure.py
index 2b90996..1edfbe6 100644
--- a/src/tight_binding_redweasel/bandstructure.py
+++ b/src/tight_binding_redweasel/bandstructure.py
@@ -329,6 +329,7 @@ class BandStructureModel:
         last_add = np.zeros_like(self.params)
         self.normalize()
         last_loss = float("inf")
+        iteration = 0
         try:
             for iteration in range(iterations):
                 batch = k_smpl[iteration % batch_div::batch_div]
@@ -488,6 +489,7 @@ class BandStructureModel:
 
         self.normalize()
         loss = float("inf")
+        iteration = 0
         try:
             mat_t_path = combined_path = None
             for iteration in range(iterations):
diff --git a/src/tight_binding_redweasel/tight_binding_asym.py b/src/tight_binding_redweasel/tight_binding_asym.py
index 4522a50..6257f30 100644
--- a/src/tight_binding_redweasel/tight_binding_asym.py
+++ b/src/tight_binding_redweasel/tight_binding_asym.py
@@ -420,6 +420,7 @@ class AsymTightBindingModel:
         last_add = np.zeros_like(self.H.H_r)
         last_add_s = np.zeros_like(self.S.H_r)
         last_loss = float("inf")
+        iteration = 0
         try:
             for iteration in range(iterations):
                 batch = k_smpl[iteration % batch_div::batch_div]
@@ -618,6 +619,7 @@ class AsymTightBindingModel:
 
         # loss = self.loss(k_smpl, ref_bands, band_, band_offset)
         loss = float("inf")
+        iteration = 0
         try:
             mat_t_path = combined_path = None
             for iteration in range(iterations):
-- 
2.43.0


From 1cdb1dce87cf0406c76fcac8e1e12ae9cf8df6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:17 +0000
Subject: [PATCH 37/48] fix: saving a model without a symmetry object doesn't
 empty an existing file

---
 src/tight_binding_redweasel/bandstructure.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/bandstructure.py b/src/tight_binding_redweasel/bandstructure.py
index 1edfbe6..ac6f68f 100644
--- a/src/tight_binding_redweasel/bandstructure.py
+++ b/src/tight_binding_redweasel/bandstructure.py
@@ -681,12 +681,13 @@ class BandStructureModel:
         if format not in {"python", "json", "wannier90"}:
             raise ValueError(
                 'supported formats are "python", "json" and "wannier90"')
+        if format == "python":
+            assert self.sym is not None, "BandStructureModel needs a symmetry to save in this format."
         opt = np.get_printoptions()
         np.set_printoptions(precision=None, suppress=False, floatmode="unique", threshold=100000, legacy='1.21')
         try:
             if format == "python":
                 with open(filename, "w") as file:
-                    assert self.sym is not None, "BandStructureModel needs a symmetry to save in this format."
                     file.write(repr(self.params_complex()) + ",\\\n")
                     file.write(repr(self.neighbors) + ",\\\n")
                     file.write(repr(self.sym.S) + ",\\\n")
-- 
2.43.0


From 289c0c9bb8f21e61ed09dcbb258880a23d2d8796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:17 +0000
Subject: [PATCH 38/48] fix: models without symmetry are loaded in their own
 dimension

---
 src/tight_binding_redweasel/bandstructure.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tight_binding_redweasel/bandstructure.py b/src/tight_binding_redweasel/bandstructure.py
index ac6f68f..2d524ab 100644
--- a/src/tight_binding_redweasel/bandstructure.py
+++ b/src/tight_binding_redweasel/bandstructure.py
@@ -741,18 +741,18 @@ class BandStructureModel:
         elif format == "wannier90hr":
             neighbors, H_r = tb_fmt.load_hr(filename)
             model = BandStructureModel.init_tight_binding(
-                Symmetry.none(), neighbors, len(H_r[0]), cos_reduced=cos_reduced, exp=exp)
+                Symmetry.none(len(neighbors[0])), neighbors, len(H_r[0]), cos_reduced=cos_reduced, exp=exp)
             model.set_params_complex(H_r)
         elif format == "wannier90tb":
             neighbors, H_r, w_r_params, degeneracies, A = tb_fmt.load_tb(filename)
             # TODO use A to transform neighbors to normalized reciprocal space.
             model = BandStructureModel.init_tight_binding(
-                Symmetry.none(), neighbors, len(H_r[0]), cos_reduced=cos_reduced, exp=exp)
+                Symmetry.none(len(neighbors[0])), neighbors, len(H_r[0]), cos_reduced=cos_reduced, exp=exp)
             model.set_params_complex(H_r)
         elif format == "json":
             neighbors, H_r = json_tb_format.load(filename)
             model = BandStructureModel.init_tight_binding(
-                Symmetry.none(), neighbors, len(H_r[0]), cos_reduced=cos_reduced, exp=exp)
+                Symmetry.none(len(neighbors[0])), neighbors, len(H_r[0]), cos_reduced=cos_reduced, exp=exp)
             model.set_params_complex(H_r)
         return model
 
-- 
2.43.0


From e45053796b9137ebeaff0e5af7bdf3a9354ad3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:17 +0000
Subject: [PATCH 39/48] fix: complex coefficients of cos_reduced models with
 symmetry count the reduction once per matrix

---
 src/tight_binding_redweasel/bandstructure.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/tight_binding_redweasel/bandstructure.py b/src/tight_binding_redweasel/bandstructure.py
index 2d524ab..e24424c 100644
--- a/src/tight_binding_redweasel/bandstructure.py
+++ b/src/tight_binding_redweasel/bandstructure.py
@@ -593,6 +593,10 @@ class BandStructureModel:
             self.params[i] = self.params[i][order]
             self.params[i] = self.params[i][:, order]
 
+    def _cos_reduced_count(self):
+        # with cos_reduced each coefficient function has one -1 per matrix of the symmetry
+        return 1 if self.sym is None else len(self.sym.S)
+
     def params_complex(self):
         """
         Get the complex fourier coefficients $H_r$ for the initially specified neighbors.
@@ -609,19 +613,19 @@ class BandStructureModel:
         if self.exp:
             H_r = np.array(self.params)
             if self.cos_reduced:
-                H_r[0] -= np.sum(H_r[1:] + np.conj(np.swapaxes(H_r[1:], -1, -2)), axis=0)
+                H_r[0] -= self._cos_reduced_count() * np.sum(H_r[1:] + np.conj(np.swapaxes(H_r[1:], -1, -2)), axis=0)
             return H_r
         H_r = np.array(self.params)
         if self.sym is not None and not self.sym.inversion:
             n = (len(self.params) + 1) // 2
             if self.cos_reduced:
                 # H_r[1:n] += H_r[0]
-                H_r[0] -= np.sum(H_r[1:n] + np.conj(np.swapaxes(H_r[1:n], -1, -2)), axis=0)
+                H_r[0] -= self._cos_reduced_count() * np.sum(H_r[1:n] + np.conj(np.swapaxes(H_r[1:n], -1, -2)), axis=0)
                 pass
             H_r[1:n] += H_r[n:] * -1j
             H_r = H_r[:n]
         elif self.cos_reduced:
-            H_r[0] -= np.sum(H_r[1:] + np.conj(np.swapaxes(H_r[1:], -1, -2)), axis=0)
+            H_r[0] -= self._cos_reduced_count() * np.sum(H_r[1:] + np.conj(np.swapaxes(H_r[1:], -1, -2)), axis=0)
         return H_r
 
     def set_params_complex(self, H_r):
@@ -639,8 +643,8 @@ class BandStructureModel:
         if self.exp:
             self.params = np.array(H_r)
             if self.cos_reduced:
-                self.params[0] += np.sum(self.params[1:] +
-                                         np.conj(np.swapaxes(self.params[1:], -1, -2)), axis=0)
+                self.params[0] += self._cos_reduced_count() * np.sum(
+                    self.params[1:] + np.conj(np.swapaxes(self.params[1:], -1, -2)), axis=0)
         else:
             self.params = np.array(H_r)
             n = len(H_r)
@@ -652,7 +656,7 @@ class BandStructureModel:
                 self.params += np.conj(np.swapaxes(self.params, -1, -2))
             self.params /= 2
             if self.cos_reduced:
-                self.params[0] += np.sum(self.params[1:n], axis=0) * 2
+                self.params[0] += self._cos_reduced_count() * np.sum(self.params[1:n], axis=0) * 2
 
     def save(self, filename: str, format=None):
         """Save the model to a file format, which can be read with the correspoding `BandStructureModel.load` function.
-- 
2.43.0


From 221f4d49c645e7131dbf22fc8ce1106526e73731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:18 +0000
Subject: [PATCH 40/48] fix: wannier90 coefficients are divided by the
 degeneracy of their lattice vector

---
 .../wannier90_tb_format.py                     | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/tight_binding_redweasel/wannier90_tb_format.py b/src/tight_binding_redweasel/wannier90_tb_format.py
index b5e3b9d..fd0b5a9 100644
--- a/src/tight_binding_redweasel/wannier90_tb_format.py
+++ b/src/tight_binding_redweasel/wannier90_tb_format.py
@@ -28,6 +28,8 @@ def load_tb(filename):
         # now read the hamiltonian matrices
         neighbors = []
         neighbors_set = set()
+        # the matrices are listed without the division by the degeneracy of their lattice vector
+        degeneracy_of = {}
         params = []
         r_params = []
         index = -1
@@ -38,6 +40,8 @@ def load_tb(filename):
             if len(parts) == 3:
                 # start new matrix or return to existing one
                 pos = tuple([int(x) for x in parts])
+                if pos not in degeneracy_of:
+                    degeneracy_of[pos] = degeneracy[len(degeneracy_of)]
                 neg_pos = tuple([-x for x in pos])
                 if pos not in neighbors_set:
                     if pos != neg_pos and neg_pos in neighbors_set:
@@ -57,7 +61,7 @@ def load_tb(filename):
                 # new matrix entry (i,j) x+iy
                 i,j = int(parts[0]), int(parts[1])
                 x,y = float(parts[2]), float(parts[3])
-                params[index][i-1,j-1] = x + y*1j
+                params[index][i-1,j-1] = (x + y*1j) / degeneracy_of[pos]
             elif len(parts) == 8:
                 if index < 0:
                     continue # skip this entry
@@ -66,9 +70,9 @@ def load_tb(filename):
                 x = float(parts[2]) + 1j*float(parts[3])
                 y = float(parts[4]) + 1j*float(parts[5])
                 z = float(parts[6]) + 1j*float(parts[7])
-                r_params[index][i-1,j-1,0] = x
-                r_params[index][i-1,j-1,1] = y
-                r_params[index][i-1,j-1,2] = z
+                r_params[index][i-1,j-1,0] = x / degeneracy_of[pos]
+                r_params[index][i-1,j-1,1] = y / degeneracy_of[pos]
+                r_params[index][i-1,j-1,2] = z / degeneracy_of[pos]
             else:
                 raise ValueError(f"File has a format error in the tight bindng matrices in line \"{line.strip()}\"")
     # sort the neighbors by length
@@ -98,6 +102,8 @@ def load_hr(filename):
         # now read the hamiltonian matrices
         neighbors = []
         neighbors_set = set()
+        # the matrices are listed without the division by the degeneracy of their lattice vector
+        degeneracy_of = {}
         params = []
         index = -1
         for line in file:
@@ -107,6 +113,8 @@ def load_hr(filename):
             if len(parts) == 7:
                 # start new matrix or return to existing one
                 pos = tuple([int(x) for x in parts[:3]])
+                if pos not in degeneracy_of:
+                    degeneracy_of[pos] = degeneracy[len(degeneracy_of)]
                 neg_pos = tuple([-x for x in pos])
                 if pos not in neighbors_set:
                     if pos != neg_pos and neg_pos in neighbors_set:
@@ -121,7 +129,7 @@ def load_hr(filename):
                 # new matrix entry (i,j) x+iy
                 i,j = int(parts[3]), int(parts[4])
                 x,y = float(parts[5]), float(parts[6])
-                params[index][i-1,j-1] = x + y*1j
+                params[index][i-1,j-1] = (x + y*1j) / degeneracy_of[pos]
             else:
                 raise ValueError(f"File has a format error in the tight bindng matrices in line \"{line.strip()}\"")
     # sort the neighbors by length
-- 
2.43.0


From e0a46a707274dd93aac9f0a13e859c6baeac586f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:18 +0000
Subject: [PATCH 41/48] fix: supercell of BandStructureModel works, for every
 lattice and integer matrix

---
 src/tight_binding_redweasel/bandstructure.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tight_binding_redweasel/bandstructure.py b/src/tight_binding_redweasel/bandstructure.py
index e24424c..7644caf 100644
--- a/src/tight_binding_redweasel/bandstructure.py
+++ b/src/tight_binding_redweasel/bandstructure.py
@@ -853,22 +853,22 @@ class BandStructureModel:
         matrix = np.linalg.inv(A_original) @ A_new
         assert np.all(np.abs(np.round(matrix) - matrix) <
                       1e-7), "The supercell matrix must be integer valued"
-        matrix = np.round(matrix)
-        det = round(np.linalg.det(matrix))
+        matrix = np.round(matrix).astype(np.int64)
+        det = abs(round(np.linalg.det(matrix)))
         assert self.sym is None or len(
             self.sym) == 1, "No symmetries of the coefficients are allowed for this operation"
-        new_neighbors = self.neighbors @ matrix.T
+        new_neighbors = self.neighbors @ (A_new @ np.linalg.inv(A_original)).T
         n = len(self.params[0])
         new_band_count = n * det
         params = self.params_complex()
         # now get all integer positions in the cell defined by matrix
-        # for that, compute the (half open) bounding box of matrix * [0,1[^3
+        # for that, compute the bounding box of matrix * [0,1[^3
         box = np.stack(np.meshgrid(*[[0, 1]] * dim), axis=-1).reshape(-1, dim)
         box = box @ matrix.T
         bounding_box = np.min(box, axis=0), np.max(box, axis=0)
         assert np.array(bounding_box).dtype == np.int64
         # now create a meshgrid inside the bounding box and select the points with inv(matrix) in [0, 1[
-        box = np.stack(np.meshgrid(*[np.arange(bounding_box[0][d], bounding_box[1][d])
+        box = np.stack(np.meshgrid(*[np.arange(bounding_box[0][d], bounding_box[1][d] + 1)
                        for d in range(dim)]), axis=-1).reshape(-1, dim)
         p_box = box @ np.linalg.inv(matrix).T
         # internal positions + origin (0)
@@ -887,7 +887,7 @@ class BandStructureModel:
                         H_r[k, i * n:(i + 1) * n, j * n:(j + 1) *
                             n] = params[m] if not mirror else np.conj(params[m].T)
         model = BandStructureModel.init_tight_binding(
-            Symmetry.none(), new_neighbors, new_band_count, cos_reduced=cos_reduced, exp=exp)
+            Symmetry.none(dim), new_neighbors, new_band_count, cos_reduced=cos_reduced, exp=exp)
         model.set_params_complex(H_r)
         return model
 
-- 
2.43.0


From 09b4deedb725ca3d309cc8964ab77c679f1a2b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:18 +0000
Subject: [PATCH 42/48] fix: supercell of AsymTightBindingModel for every
 lattice and integer matrix, with the overlap

---
 .../tight_binding_asym.py                     | 31 ++++++++++---------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/tight_binding_redweasel/tight_binding_asym.py b/src/tight_binding_redweasel/tight_binding_asym.py
index 6257f30..4927be7 100644
--- a/src/tight_binding_redweasel/tight_binding_asym.py
+++ b/src/tight_binding_redweasel/tight_binding_asym.py
@@ -843,33 +843,34 @@ class AsymTightBindingModel:
         matrix = np.linalg.inv(A_original) @ A_new
         assert np.all(np.abs(np.round(matrix) - matrix) < 1e-7), "The supercell matrix must be integer valued"
         matrix = np.round(matrix).astype(np.int64)
-        det = round(np.linalg.det(matrix))
-        new_neighbors = self.H.neighbors @ matrix.T
+        det = abs(round(np.linalg.det(matrix)))
         n = len(self.H.H_r[0])
         new_band_count = n * det
-        H_r = self.params_complex()
         # now get all integer positions in the cell defined by matrix
-        # for that, compute the (half open) bounding box of matrix * [0,1[^3
+        # for that, compute the bounding box of matrix * [0,1[^3
         box = np.stack(np.meshgrid(*[[0, 1]]*dim), axis=-1).reshape(-1, dim)
         box = box @ matrix.T
         bounding_box = np.min(box, axis=0), np.max(box, axis=0)
         assert np.array(bounding_box).dtype == np.int64
         # now create a meshgrid inside the bounding box and select the points with inv(matrix) in [0, 1[
-        box = np.stack(np.meshgrid(*[np.arange(bounding_box[0][d], bounding_box[1][d]) for d in range(dim)]), axis=-1).reshape(-1, dim)
+        box = np.stack(np.meshgrid(*[np.arange(bounding_box[0][d], bounding_box[1][d] + 1) for d in range(dim)]), axis=-1).reshape(-1, dim)
         p_box = box @ np.linalg.inv(matrix).T
         # internal positions + origin (0)
         internal_positions = list(p_box[np.all((p_box >= 0-1e-7) & (p_box < 1-1e-7), axis=1)] @ A_new.T)
         assert len(internal_positions) == det
-        # now build the new hamiltonian
-        H_r2 = np.zeros((len(H_r), new_band_count, new_band_count), dtype=np.complex128)
-        neighbor_func = try_neighbor_function(self.H.neighbors)
-        for k, nk in enumerate(new_neighbors):
-            for i, pi in enumerate(internal_positions):
-                for j, pj in enumerate(internal_positions):
-                    m, mirror = neighbor_func(nk + pj - pi)
-                    if m is not None:
-                        H_r2[k, i*n:(i+1)*n, j*n:(j+1)*n] = H_r[m] if not mirror else np.conj(H_r[m].T)
-        model = AsymTightBindingModel(HermitianFourierSeries(new_neighbors, H_r2))
+        # now build the new hamiltonian and overlap
+        def fold(series):
+            new_neighbors = series.neighbors @ (A_new @ np.linalg.inv(A_original)).T
+            H_r2 = np.zeros((len(series.H_r), new_band_count, new_band_count), dtype=np.complex128)
+            neighbor_func = try_neighbor_function(series.neighbors)
+            for k, nk in enumerate(new_neighbors):
+                for i, pi in enumerate(internal_positions):
+                    for j, pj in enumerate(internal_positions):
+                        m, mirror = neighbor_func(nk + pj - pi)
+                        if m is not None:
+                            H_r2[k, i*n:(i+1)*n, j*n:(j+1)*n] = series.H_r[m] if not mirror else np.conj(series.H_r[m].T)
+            return HermitianFourierSeries(new_neighbors, H_r2)
+        model = AsymTightBindingModel(fold(self.H), S=fold(self.S))
         return model
 
     def __add__(self, other) -> 'AsymTightBindingModel':
-- 
2.43.0


From 23de08ed5fc4f1129cdd53666460b06b6d2c6bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:18 +0000
Subject: [PATCH 43/48] fix: shifting a model with overlap adds every term of
 the overlap

---
 src/tight_binding_redweasel/tight_binding_asym.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/tight_binding_asym.py b/src/tight_binding_redweasel/tight_binding_asym.py
index 4927be7..5fdd7b1 100644
--- a/src/tight_binding_redweasel/tight_binding_asym.py
+++ b/src/tight_binding_redweasel/tight_binding_asym.py
@@ -879,9 +879,17 @@ class AsymTightBindingModel:
             return AsymTightBindingModel(self.H + other.H, S=self.S + other.S)
         else:
             # shift the whole bandstructure
-            # TODO figure out how this actually works wih S(k)
+            # (H + c S) v = (E + c) S v, so all terms of S(k) have to be added
             H = self.H.copy()
-            H.H_r[0] += self.S.H_r[0] * float(other)
+            neighbor_func = try_neighbor_function(H.neighbors)
+            missing = [r for r in self.S.neighbors if neighbor_func(r)[0] is None]
+            if missing:
+                H.add_neighbors(missing)
+                neighbor_func = try_neighbor_function(H.neighbors)
+            H.H_r = H.H_r.astype(np.result_type(H.H_r, self.S.H_r, float))
+            for r, s in zip(self.S.neighbors, self.S.H_r):
+                m, mirror = neighbor_func(r)
+                H.H_r[m] += (np.conj(s.T) if mirror else s) * float(other)
             return AsymTightBindingModel(H, S=self.S.copy())
 
     def __mul__(self, fac: float) -> 'AsymTightBindingModel':
-- 
2.43.0


From 0fb0cba32728828c07aa7b21318dcd4997b481d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:21 +0000
Subject: [PATCH 44/48] fix: TightBindingModel.f works for a single k-point
 with inversion symmetry

---
 src/tight_binding_redweasel/tight_binding.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tight_binding_redweasel/tight_binding.py b/src/tight_binding_redweasel/tight_binding.py
index f299ba7..54e41dd 100644
--- a/src/tight_binding_redweasel/tight_binding.py
+++ b/src/tight_binding_redweasel/tight_binding.py
@@ -250,10 +250,10 @@ class TightBindingModel:
                 c, s = self.f_i(k, i)
                 c = np.asarray(c)[...,None,None]
                 s = np.asarray(s)[...,None,None]
-                mat[:,:n,:n] += c * params[i][...,:n,:n]
-                mat[:,n:,n:] += c * params[i][...,n:,n:]
-                mat[:,:n,n:] += s * params[i][...,:n,n:]
-                mat[:,n:,:n] += s * params[i][...,n:,:n]
+                mat[...,:n,:n] += c * params[i][...,:n,:n]
+                mat[...,n:,n:] += c * params[i][...,n:,n:]
+                mat[...,:n,n:] += s * params[i][...,:n,n:]
+                mat[...,n:,:n] += s * params[i][...,n:,:n]
         else:
             for i in range(len(self.params)):
                 mat += np.asarray(self.f_i(k, i))[...,None,None] * params[i]
-- 
2.43.0


From 9235886913f699743c6e295fdb1b0b8cd5b46f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:21 +0000
Subject: [PATCH 45/48] fix: bands_grad_hess of models with overlap includes
 the derivatives of the overlap

---
 .../tight_binding_asym.py                       | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/tight_binding_redweasel/tight_binding_asym.py b/src/tight_binding_redweasel/tight_binding_asym.py
index 5fdd7b1..633188b 100644
--- a/src/tight_binding_redweasel/tight_binding_asym.py
+++ b/src/tight_binding_redweasel/tight_binding_asym.py
@@ -803,23 +803,24 @@ class AsymTightBindingModel:
         Returns:
             (arraylike(N_k, N_b), arraylike(N_k, dim, N_b), arraylike(N_k, dim, dim, N_b)): (bands, grads, hessians)
         """
-        # TODO add dS and ddS!!
         bands, ev = geigh(self.H.f(k_smpl), self.S.f(k_smpl))
-        df = self.H.df(k_smpl)
-        ddf = self.H.ddf(k_smpl)
+        ev_c = np.conj(ev)
         # first order perturbation theory terms
-        df_ev = np.einsum("mji, mnjk, mkl -> mnil", np.conj(ev), df, ev)
+        dS_ev = np.einsum("mji, mnjk, mkl -> mnil", ev_c, self.S.df(k_smpl), ev)
+        df_ev = np.einsum("mji, mnjk, mkl -> mnil", ev_c, self.H.df(k_smpl), ev) - dS_ev * bands[:, None, None, :]
         grads = np.real(np.diagonal(df_ev, axis1=2, axis2=3))
-        hess1 = np.real(np.einsum("mji, mpqjk, mki -> mpqi", np.conj(ev), ddf, ev))
+        hess1 = np.real(np.einsum("mji, mpqjk, mki -> mpqi", ev_c, self.H.ddf(k_smpl), ev))
+        hess1 -= np.real(np.einsum("mji, mpqjk, mki -> mpqi", ev_c, self.S.ddf(k_smpl), ev)) * bands[:, None, None, :]
+        # change of the norm of the eigenvectors
+        norm = np.real(np.diagonal(dS_ev, axis1=2, axis2=3))
+        hess1 -= grads[:, :, None] * norm[:, None] + norm[:, :, None] * grads[:, None]
         # second order perturbation theory terms
         no_diag = np.array(df_ev)  # copy before modification (grads is a view)
         for i in range(len(grads[0, 0])):
             no_diag[:, :, i, i] = 0  # zero out diagonal terms
-        # dev = ev[:,None,:,:] @ (no_diag / (bands[:,None,:,None] - bands[:,None,None,:] + 1e-40))
-        # hess2 = np.real(np.einsum("mji, mpjk, mqki -> mpqi", 2*np.conj(ev), df, dev))
         db = no_diag / (bands[:, None, :, None] -
                         bands[:, None, None, :] + 1e-40)
-        hess2 = np.real(np.einsum("mpik, mqki -> mpqi", df_ev, db))
+        hess2 = np.real(np.einsum("mpki, mqki -> mpqi", np.conj(df_ev), db))
         return bands, grads, hess1 - 2*hess2
 
     def supercell(self, A_original, A_new) -> 'AsymTightBindingModel':
-- 
2.43.0


From ce7f84b45025dcf802c9064cab1d0cc25524fa28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:21 +0000
Subject: [PATCH 46/48] fix: windowed loss and error histogram also try the
 last band offset

---
 src/tight_binding_redweasel/loss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/loss.py b/src/tight_binding_redweasel/loss.py
index 733fdec..ff849f3 100644
--- a/src/tight_binding_redweasel/loss.py
+++ b/src/tight_binding_redweasel/loss.py
@@ -57,7 +57,7 @@ def model_windowed_loss(bands, ref_bands, min_energy, max_energy, allow_skipped_
         select = (min_energy <= ref_bands) & (ref_bands <= max_energy)
         cost = float("inf")
         # find out bandoffset by checking all bandoffsets and finding the one with the lowest error
-        for i in range(max_offset):
+        for i in range(max_offset + 1):
             if len(bands[0]) < len(ref_bands[0]):
                 diff = (ref_bands[:,i:i+compare_bands] - bands) * select[:,i:i+compare_bands]
             else:
@@ -98,7 +98,7 @@ def model_error_hist(bands, ref_bands, N=50, allow_skipped_bands=False):
         error = None
         ref_bands2 = ref_bands
         cost = float("inf")
-        for i in range(max_offset):
+        for i in range(max_offset + 1):
             if len(bands[0]) < len(ref_bands[0]):
                 diff = (ref_bands[:,i:i+compare_bands] - bands)
             else:
-- 
2.43.0


From 0462803cac1b7f445a9407b7ae1975cfe7e5fc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:21 +0000
Subject: [PATCH 47/48] fix: FreeElectrons.bands_grad_hess returns the Hessians
 in the documented shape, cut like the bands

---
 src/tight_binding_redweasel/bulk_properties.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/bulk_properties.py b/src/tight_binding_redweasel/bulk_properties.py
index 1815ddf..124391b 100644
--- a/src/tight_binding_redweasel/bulk_properties.py
+++ b/src/tight_binding_redweasel/bulk_properties.py
@@ -499,10 +499,10 @@ class FreeElectrons:
         k_smpl = np.asarray(k_smpl)[:, :, None] - self.k_neighbors[None, :, :]
         bands = np.linalg.norm(k_smpl, axis=-2)**2
         grad = 2 * k_smpl
-        hess = np.array([np.eye(3) * 2] * len(self.k_neighbors[0])).T
         order = np.argsort(bands, axis=-1)
         if self.limit_count:
             order = order[:, :self.limit_count]
         bands = np.take_along_axis(bands, order, axis=-1)
         grad = np.take_along_axis(grad, order[:, None, :], axis=-1)
-        return self.fac * bands, self.fac * grad, self.fac * hess[None, ...]
+        hess = np.eye(grad.shape[1])[None, :, :, None] * np.full(bands.shape, 2)[:, None, None, :]
+        return self.fac * bands, self.fac * grad, self.fac * hess
-- 
2.43.0


From e8d99c1ff409811e9dc38f0263a3b2aed4d8f49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:33 +0000
Subject: [PATCH 48/48] fix: UnitaryRepresentation.symmetrize and symmetrizer
 apply the inversion of a group with one matrix

---
 src/tight_binding_redweasel/unitary_representations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/unitary_representations.py b/src/tight_binding_redweasel/unitary_representations.py
index 1f69aca..8faaa74 100644
--- a/src/tight_binding_redweasel/unitary_representations.py
+++ b/src/tight_binding_redweasel/unitary_representations.py
@@ -179,7 +179,7 @@ class UnitaryRepresentation:
         Returns:
             arraylike(N_r, dim, dim): The changed H_r, which respects the symmetry.
         """
-        if len(self.U) <= 1:
+        if len(self.U) <= 1 and not self.sym.inversion:
             return H_r # do nothing if self.U is empty, which stands for all U being the unit matrix
         result = np.zeros_like(H_r) # all U_S are real, so no worries about type here
         # add up all symmetries
@@ -244,7 +244,7 @@ class UnitaryRepresentation:
         Returns:
             function: A function which takes a `H_r` and returns the symmetrized version, just like `self.symmetrize` would.
         """
-        if len(self.U) <= 1:
+        if len(self.U) <= 1 and not self.sym.inversion:
             return lambda x: x # do nothing if self.U is empty, which stands for all U being the unit matrix
         assert len(self.sym.S) == len(self.U)
         neighbor_func = _sym.neighbor_function(neighbors)
-- 
2.43.0

