From 4e700f5787831d4298b9149466adf2c33f5153bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:24 +0000
Subject: [PATCH 01/29] fix: correlation_direct_ND autocorrelation of a
 multidimensional array returned only the diagonal

---
 VolterraBasis/correlation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/VolterraBasis/correlation.py b/VolterraBasis/correlation.py
index 9b4eaed..4d23a4a 100644
--- a/VolterraBasis/correlation.py
+++ b/VolterraBasis/correlation.py
@@ -63,10 +63,10 @@ def correlation_direct_ND(a, b=None, trunc=None):
     else:
         len_trunc = a.shape[-1]
     len_dat = a.shape[-1]
-    if b is None:
-        b = a
+    if b is None:  # Same layout as correlation_ND: res[i, j, n] = <a_j(0) a_i(n)>
+        a, b = a[np.newaxis, ...], a[:, np.newaxis, ...]
     # TODO: vérifier le type de l'array a et créer un array vide du même type
-    res = np.zeros((a.shape[0], b.shape[0], len_trunc))
+    res = np.zeros(np.broadcast_shapes(a.shape[:-1], b.shape[:-1]) + (len_trunc,))
     res[:, :, 0] = (a * b).sum(axis=-1) / len_dat
     for n in range(1, len_trunc):
         res[:, :, n] = (a[..., :-n] * b[..., n:]).sum(axis=-1) / (len_dat - n)
-- 
2.43.0


From e4efcfc4df8e5623b5f9e43470e10229654583fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:24 +0000
Subject: [PATCH 02/29] fix: FeaturesCombiner.deriv kept only the first and
 last basis of the set

---
 VolterraBasis/basis/_basis_features.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/VolterraBasis/basis/_basis_features.py b/VolterraBasis/basis/_basis_features.py
index a0c2ba0..e1f1645 100644
--- a/VolterraBasis/basis/_basis_features.py
+++ b/VolterraBasis/basis/_basis_features.py
@@ -256,8 +256,8 @@ class FeaturesCombiner(TransformerMixin):
         grad = self.basis_set[0].deriv(X, deriv_order=deriv_order)
         for b in self.basis_set[1:]:
             # print(grad.shape, b.deriv(X, deriv_order=deriv_order).shape)
-            features = np.concatenate((grad, b.deriv(X, deriv_order=deriv_order)), axis=1)
-        return features
+            grad = np.concatenate((grad, b.deriv(X, deriv_order=deriv_order)), axis=1)
+        return grad
 
     def hessian(self, X):
         return self.deriv(X, deriv_order=2)
-- 
2.43.0


From a7cbc8856487dd0420f8a313dbc3d6edec320752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:24 +0000
Subject: [PATCH 03/29] fix: LinearFeatures.antiderivative ignored the
 centering of the basis

---
 VolterraBasis/basis/_basis_features.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/basis/_basis_features.py b/VolterraBasis/basis/_basis_features.py
index e1f1645..9115ce7 100644
--- a/VolterraBasis/basis/_basis_features.py
+++ b/VolterraBasis/basis/_basis_features.py
@@ -46,7 +46,7 @@ class LinearFeatures(TransformerMixin):
         return self.deriv(X, deriv_order=2)
 
     def antiderivative(self, X, order=1):
-        return 0.5 * np.power(X, 2)
+        return 0.5 * np.power(X, 2) - self.mean_ * X
 
 
 class PolynomialFeatures(TransformerMixin):
-- 
2.43.0


From 22e6eb237ab8bf8d4bf721a16a40a09d5c55a15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:24 +0000
Subject: [PATCH 04/29] fix: TensorialBasis2D with a single basis fitted both
 dimensions on the second one

---
 VolterraBasis/basis/_multidim_basis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/VolterraBasis/basis/_multidim_basis.py b/VolterraBasis/basis/_multidim_basis.py
index 9355d4a..e84e926 100644
--- a/VolterraBasis/basis/_multidim_basis.py
+++ b/VolterraBasis/basis/_multidim_basis.py
@@ -1,6 +1,7 @@
 """
 This the main estimator module
 """
+import copy
 import numpy as np
 import scipy.stats
 from sklearn.base import TransformerMixin
@@ -16,7 +17,7 @@ class TensorialBasis2D(TransformerMixin):
         """Take two of basis"""
         self.b1 = b1
         if b2 is None:
-            self.b2 = b1
+            self.b2 = copy.deepcopy(b1)  # Each dimension needs its own fitted basis
         else:
             self.b2 = b2
         # Force rank projection
-- 
2.43.0


From 1becf56228020298baad8a56597723fd406798a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:24 +0000
Subject: [PATCH 05/29] fix: solve_ide_trapz_stab sliced the history along the
 wrong axis

---
 VolterraBasis/fkernel.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/fkernel.f90 b/VolterraBasis/fkernel.f90
index f99caa5..b9e73a8 100644
--- a/VolterraBasis/fkernel.f90
+++ b/VolterraBasis/fkernel.f90
@@ -477,7 +477,7 @@ subroutine solve_ide_trapz_stab(len_mem, dim_basis, dim_other, kernel, E0, f_coe
 
   do i=1,lenTraj-1
     max_len = min(i,len_mem)
-    call trapz_integral(memory,dt,max_len, E(i-max_len:i,:,:),kernel(0:max_len,:,:),dim_basis,dim_basis,dim_other)
+    call trapz_integral(memory,dt,max_len, E(:,:,i-max_len:i),kernel(0:max_len,:,:),dim_basis,dim_basis,dim_other)
     E(:,:,i) = matmul(E(:,:,i-1)-dt*memory+dt*matmul(E(:,:,i-1),f_coeff),invK0)
     ! projection onto the unit simplex for stabilisation, start with simple normalization
     E(:,:,i) = max(E(:,:,i),0.)
-- 
2.43.0


From fea1d408976a48ad12500c5e649ac3399abed380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:24 +0000
Subject: [PATCH 06/29] fix: kernel_second_kind_simpson had the wrong sign for
 the implicit term

---
 VolterraBasis/fkernel.f90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/VolterraBasis/fkernel.f90 b/VolterraBasis/fkernel.f90
index b9e73a8..04afdf6 100644
--- a/VolterraBasis/fkernel.f90
+++ b/VolterraBasis/fkernel.f90
@@ -276,11 +276,11 @@ subroutine kernel_second_kind_simpson(lenTraj, dim_basis,dim_x, kernel, k0, B0,
   double precision,dimension(dim_basis,dim_x)::num
   integer::i
 
-  invB0=inv(B0+0.5*dt*Bdot(:,:,0)) ! Update this depending of integration rule
+  invB0=inv(B0-0.5*dt*Bdot(:,:,0)) ! Update this depending of integration rule
 
   kernel(0,:,:)=k0
   kernel(1,:,:)=matmul(invB0,DxBdot(:,:,1)+0.5*dt*matmul(Bdot(:,:,1),kernel(0,:,:))) ! First point trapz rule
-  invB0=inv(B0+dt*Bdot(:,:,0)/3) ! Update this depending of integration rule
+  invB0=inv(B0-dt*Bdot(:,:,0)/3) ! Update this depending of integration rule
 
   do i=2,lenTraj !! for i in range(1, lenTraj):
      call simpson_integral(num,dt,i,Bdot(:,:,0:i),kernel(0:i,:,:),dim_basis,dim_x,dim_basis)
-- 
2.43.0


From 9aa3b208207bdc199574f314711b4c18489bca4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:24 +0000
Subject: [PATCH 07/29] fix: midpoint inversion mixed odd and even lags and
 mislabelled its time grid

---
 VolterraBasis/fkernel.f90       | 8 ++++----
 VolterraBasis/gle_estimation.py | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/VolterraBasis/fkernel.f90 b/VolterraBasis/fkernel.f90
index 04afdf6..e252b6a 100644
--- a/VolterraBasis/fkernel.f90
+++ b/VolterraBasis/fkernel.f90
@@ -133,7 +133,7 @@ subroutine kernel_first_kind_midpoint(lenTraj, dim_basis,dim_x, kernel,  B, DxB,
   use lapackMod
   implicit none
   integer,intent(in)::lenTraj,dim_basis,dim_x
-  double precision,dimension(0:(lenTraj-1)/2,dim_basis, dim_x),intent(out)::kernel
+  double precision,dimension(0:lenTraj/2-1,dim_basis, dim_x),intent(out)::kernel
   double precision,dimension(dim_basis, dim_basis, 0:lenTraj),intent(in)::B
   double precision,dimension(dim_basis, dim_x, 0:lenTraj),intent(in)::DxB
   double precision,intent(in)::dt
@@ -143,11 +143,11 @@ subroutine kernel_first_kind_midpoint(lenTraj, dim_basis,dim_x, kernel,  B, DxB,
 
   invB0=inv(2*dt*B(:,:,1)) ! Update this depending of integration rule
 
-  kernel(0,:,:)=-1*matmul(invB0,DxB(:,:,1))
+  kernel(0,:,:)=-1*matmul(invB0,DxB(:,:,2))
 
   do i=1,lenTraj/2-1 !! for i in range(1, lenTraj):
-     call midpoint_integral(num,2*dt,i,B(:,:,0:2*i),kernel(0:i,:,:),dim_basis,dim_x,dim_basis)
-     kernel(i,:,:)=-1*matmul(invB0,num+DxB(:,:,2*i+1))
+     call midpoint_integral(num,2*dt,i,B(:,:,1:2*i+1),kernel(0:i,:,:),dim_basis,dim_x,dim_basis)
+     kernel(i,:,:)=-1*matmul(invB0,num+DxB(:,:,2*i+2))
   end do
 
 
diff --git a/VolterraBasis/gle_estimation.py b/VolterraBasis/gle_estimation.py
index a25d0be..418ff68 100644
--- a/VolterraBasis/gle_estimation.py
+++ b/VolterraBasis/gle_estimation.py
@@ -320,12 +320,12 @@ class Estimator_gle(object):
             kernel = kernel_first_kind_rect(self.bkbkcorrw.to_numpy(), self.bkdxcorrw.to_numpy(), self.dt)
         elif method == "midpoint":  # Deal with not even data lenght
             kernel = kernel_first_kind_midpoint(self.bkbkcorrw.to_numpy(), self.bkdxcorrw.to_numpy(), self.dt)
-            time_ker = time_ker[:-1:2]
+            time_ker = time_ker[1:-1:2]  # The kernel is known at the midpoints
         elif method == "midpoint_w_richardson":
             ker = kernel_first_kind_midpoint(self.bkbkcorrw.to_numpy(), self.bkdxcorrw.to_numpy(), self.dt)
             ker_3 = kernel_first_kind_midpoint(self.bkbkcorrw.to_numpy()[:, :, ::3], self.bkdxcorrw.to_numpy()[:, :, ::3], 3 * self.dt)
-            kernel = (9 * ker[::3][: ker_3.shape[0]] - ker_3) / 8
-            time_ker = time_ker[:-3:6]
+            kernel = (9 * ker[1::3][: ker_3.shape[0]] - ker_3) / 8
+            time_ker = time_ker[3::6][: ker_3.shape[0]]
         elif method == "trapz":
             ker = kernel_first_kind_trapz(k0, self.bkbkcorrw.to_numpy(), self.bkdxcorrw.to_numpy(), self.dt)
             kernel = 0.5 * (ker[1:-1, :, :] + 0.5 * (ker[:-2, :, :] + ker[2:, :, :]))  # Smoothing
-- 
2.43.0


From ae876f43deb54b48729169885e1f5a7eb559e6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:24 +0000
Subject: [PATCH 08/29] fix: compute_noise summed the mean force over the
 components of the observable

---
 VolterraBasis/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/models.py b/VolterraBasis/models.py
index 249959c..0af3fdf 100644
--- a/VolterraBasis/models.py
+++ b/VolterraBasis/models.py
@@ -159,7 +159,7 @@ class ModelBase(object):
         E_force, E, _ = self.basis_vector(xva)
         if self.rank_projection:
             E = matmulPrange(self.P_range, E)
-        force = xr.dot(E_force, self.force_coeff, dims=["dim_basis", "dim_x"])
+        force = xr.dot(E_force, self.force_coeff, dims=["dim_basis"])
         if self.method in ["rect", "rectangular", "second_kind_rect"] or self.method is None:
             memory = memory_rect(self.kernel[:trunc_kernel], E, dt)
         elif self.method == "trapz" or self.method == "second_kind_trapz":
-- 
2.43.0


From e9777b339c32b6d42d4b19685e4d0e53883b3cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:24 +0000
Subject: [PATCH 09/29] fix: compute_gram_kernel crashed when the basis is
 projected on its range

---
 VolterraBasis/gle_estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/gle_estimation.py b/VolterraBasis/gle_estimation.py
index 418ff68..e28c286 100644
--- a/VolterraBasis/gle_estimation.py
+++ b/VolterraBasis/gle_estimation.py
@@ -211,7 +211,7 @@ class Estimator_gle(object):
             print("Calculate kernel gram...")
         self.model.gram_kernel = self.loop_over_trajs(self._compute_gram, self.model, gram_type="kernel")[0]
         if self.model.rank_projection:
-            self.model.gram_kernel = np.einsum("lj,jk,mk->lm", self.model.P_range, self.gram_kernel, self.model.P_range)
+            self.model.gram_kernel = xr.DataArray(np.einsum("lj,jk,mk->lm", self.model.P_range, self.model.gram_kernel, self.model.P_range), dims=("dim_basis", "dim_basis'"))
         return self.model
 
     def compute_effective_mass(self):
-- 
2.43.0


From 508500d6f0f4ccfacd0b992e642451a6e87576b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:24 +0000
Subject: [PATCH 10/29] fix: laplace_transform_kernel looked up a time
 coordinate that kernels do not have

---
 VolterraBasis/models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/VolterraBasis/models.py b/VolterraBasis/models.py
index 0af3fdf..3789883 100644
--- a/VolterraBasis/models.py
+++ b/VolterraBasis/models.py
@@ -358,8 +358,9 @@ class ModelBase(object):
         # mintimelenght = self.trunc_ind * dt
         s_range = np.linspace(s_start, s_end, n_points)
         laplace = np.zeros((n_points, self.kernel.shape[1], self.kernel.shape[2]))
+        time = self.kernel["time_kernel"].to_numpy()
         for n, s in enumerate(s_range):
-            laplace[n, :, :] = simpson(np.einsum("i,ijk-> ijk", np.exp(-s * self.kernel["time"][:, 0]), self.kernel), self.kernel["time"][:, 0], axis=0)
+            laplace[n, :, :] = simpson(np.einsum("i,ijk-> ijk", np.exp(-s * time), self.kernel.to_numpy()), time, axis=0)
         return s_range, laplace
 
     def save_model(self):
-- 
2.43.0


From 1541567325a4d199b7872b74eea4e423167802df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:24 +0000
Subject: [PATCH 11/29] fix: load_model dropped the inversion method and the
 masses, and altered its argument

---
 VolterraBasis/models.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/VolterraBasis/models.py b/VolterraBasis/models.py
index 3789883..c778e73 100644
--- a/VolterraBasis/models.py
+++ b/VolterraBasis/models.py
@@ -387,14 +387,17 @@ class ModelBase(object):
         """
         # A partir des attibuts du DataSet construire un dictionnaire des arguments à donner
         # kwargs = .. dim_x, dim_obs, trunc_ind, L_obs, describe_data
-        cls_attrs = coeffs.attrs
+        cls_attrs = dict(coeffs.attrs)  # Do not alter the saved attributes
         for key, value in kwargs.items():
             cls_attrs[key] = value
         model = cls(basis, **cls_attrs)
 
-        for key in ["force_coeff", "kernel", "rank_projection", "P_range", "gram_force"]:
+        for key in ["force_coeff", "kernel", "P_range", "gram_force", "gram_kernel", "eff_mass", "inv_mass_coeff"]:
             if key in coeffs:
                 setattr(model, key, coeffs[key])
+        for key in ["rank_projection", "method"]:
+            if key in coeffs:
+                setattr(model, key, coeffs[key].item())
         if model.force_coeff is not None:
             model.force_coeff = model.force_coeff.rename({"dim_basis_force": "dim_basis"})
         if model.gram_force is not None:
-- 
2.43.0


From 704a067b6dbf37b3c7b9b361436b77c6e8e1e97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:24 +0000
Subject: [PATCH 12/29] fix: Integrator_gle crashed without a model or with a
 truncated kernel

---
 VolterraBasis/gle_integrate.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/VolterraBasis/gle_integrate.py b/VolterraBasis/gle_integrate.py
index 5b69dae..a08e0ee 100644
--- a/VolterraBasis/gle_integrate.py
+++ b/VolterraBasis/gle_integrate.py
@@ -223,7 +223,11 @@ class Integrator_gle(object):
 
         self.trunc_kernel = self.kernel.shape[0]
 
-        self.noise_generator = ColoredNoiseGenerator(kernel_noise, gle_model.kernel["time_kernel"].to_numpy(), rng=rng)
+        if gle_model is not None:
+            time_kernel = gle_model.kernel["time_kernel"].to_numpy()[: self.trunc_kernel]
+        else:
+            time_kernel = np.arange(self.trunc_kernel) * self.dt
+        self.noise_generator = ColoredNoiseGenerator(kernel_noise, time_kernel, rng=rng)
 
     def _copy_from_estimator(self, gle_model, trunc_kernel=None):
         """
-- 
2.43.0


From 88dcc9fc217c0cf42b34977594c850b334d4ba8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:24 +0000
Subject: [PATCH 13/29] fix: prony fit crashed when keeping every singular
 value

---
 VolterraBasis/fit_prony.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/VolterraBasis/fit_prony.py b/VolterraBasis/fit_prony.py
index caadf4d..56e316f 100644
--- a/VolterraBasis/fit_prony.py
+++ b/VolterraBasis/fit_prony.py
@@ -42,7 +42,8 @@ def ldl_hankel(y, n=None, thres=None, N_keep=None):
     else:
         N = min(N_keep, N_rank)  # Number of singular values to keep, given from rank of Hankel matrix or from input
         # Update the thresold from highest non keeped singular value
-        thres = s_svd[N]
+        if N < s_svd.shape[0]:
+            thres = s_svd[N]
     N = min(N, n)  # Limit the number of vector
     # Keep only the N highest singular value
     # print("Prony: Singular values. Value lower than thres are considered zero.")
@@ -139,7 +140,8 @@ def prony_inspect_data(data, thres=None, N_keep=None):
     else:
         N = min(N_keep, N_rank)  # Number of singular values to keep, given from rank of Hankel matrix or from input
         # Update the thresold from highest non keeped singular value
-        thres = s_svd[N]
+        if N < s_svd.shape[0]:
+            thres = s_svd[N]
     N = min(N, n)  # Limit the number of vector
     # Keep only the N highest singular value
     print("Prony: Singular values. Value lower than thres are considered zero.")
-- 
2.43.0


From 2d0674615ec60746677b63dca656c4ac0c9f7ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:24 +0000
Subject: [PATCH 14/29] fix: ElementFinder altered the trajectory it was given
 and could not be used in 3D

---
 VolterraBasis/basis/_fem_features.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/VolterraBasis/basis/_fem_features.py b/VolterraBasis/basis/_fem_features.py
index cbae7d9..c86475d 100644
--- a/VolterraBasis/basis/_fem_features.py
+++ b/VolterraBasis/basis/_fem_features.py
@@ -40,9 +40,8 @@ class ElementFinder:
         """
         Assuming X is nsamples x 1
         """
-        maxix = X[:, 0] == self.max_point
-        X[maxix, 0] = X[maxix, 0] - 1e-10  # special case in np.digitize
-        return np.argmax((np.digitize(X[:, 0], self.bins) - 1)[:, None] == self.bins_idx, axis=1)
+        x = np.where(X[:, 0] == self.max_point, np.nextafter(self.max_point, -np.inf), X[:, 0])  # special case in np.digitize
+        return np.argmax((np.digitize(x, self.bins) - 1)[:, None] == self.bins_idx, axis=1)
 
     def find_element_2D(self, X):
         return self.mesh_finder(X[:, 0], X[:, 1])
@@ -63,7 +62,7 @@ class ElementFinder:
         """
         return (X[0] >= -np.finfo(X.dtype).eps) * (X[1] >= -np.finfo(X.dtype).eps) * (1 - X[0] - X[1] >= -np.finfo(X.dtype).eps)
 
-    def inside_3D(X):
+    def inside_3D(self, X):
         """
         Say which point are inside the element
         """
-- 
2.43.0


From 262c0628959aae9d29915ddedd902ff0ead5e051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:24 +0000
Subject: [PATCH 15/29] fix: FEMScalarFeatures.deriv mixed samples and
 components in dimension higher than 1

---
 VolterraBasis/basis/_fem_features.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/basis/_fem_features.py b/VolterraBasis/basis/_fem_features.py
index c86475d..f4c446e 100644
--- a/VolterraBasis/basis/_fem_features.py
+++ b/VolterraBasis/basis/_fem_features.py
@@ -122,7 +122,7 @@ class FEMScalarFeatures(TransformerMixin):
         pts = self.basis_fem.mapping.invF(x[:, :, np.newaxis], tind=cells)
         phis = np.array([self.basis_fem.elem.gbasis(self.basis_fem.mapping, pts, k, tind=cells)[0].grad.transpose([1, 2, 0]) for k in range(self.basis_fem.Nbfun)])  # TODO: vérifier la shape et en extraire les diverses dimensions
         return sparse.COO(
-            (np.tile(np.arange(nsamples), dim * self.basis_fem.Nbfun), np.tile(self.basis_fem.element_dofs[:, cells].flatten(), dim), np.repeat(np.arange(dim), nsamples * self.basis_fem.Nbfun)), np.ravel(phis), shape=(nsamples, self.n_output_features_, dim)  # Le dernier array doit être 000011111222
+            (np.tile(np.arange(nsamples), dim * self.basis_fem.Nbfun), np.tile(self.basis_fem.element_dofs[:, cells].flatten(), dim), np.repeat(np.arange(dim), nsamples * self.basis_fem.Nbfun)), np.ravel(np.moveaxis(phis, -1, 0)), shape=(nsamples, self.n_output_features_, dim)  # Le dernier array doit être 000011111222
         ).todense()  # .todense(): Temporary workaround to the absence if einsum in sparse library
 
     def hessian(self, X):  # Only for Elementglobal
-- 
2.43.0


From 5f5cbbffa9832345e4973726e8551bddd41999e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:24 +0000
Subject: [PATCH 16/29] fix: compute_corrs crashed at saving without the second
 order correlations

---
 VolterraBasis/gle_estimation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/VolterraBasis/gle_estimation.py b/VolterraBasis/gle_estimation.py
index e28c286..020be91 100644
--- a/VolterraBasis/gle_estimation.py
+++ b/VolterraBasis/gle_estimation.py
@@ -284,7 +284,10 @@ class Estimator_gle(object):
             if isinstance(self.dotbkbkcorrw, xr.DataArray):
                 self.dotbkbkcorrw = xr.dot(P_range_tranpose, P_range, self.dotbkbkcorrw.rename({"dim_basis": "dim_basis_old", "dim_basis'": "dim_basis_old'"}))
         if self.saveall:
-            xr.Dataset({"bkbk": self.bkbkcorrw, "bkdx": self.bkdxcorrw, "dotbkbk": self.dotbkbkcorrw, "dotbkdx": self.dotbkdxcorrw}, coords={"time_trunc": np.arange(self.bkbkcorrw.shape[-1]) * self.dt}).to_netcdf(self.corrsfile)
+            corrs = {"bkbk": self.bkbkcorrw, "bkdx": self.bkdxcorrw}
+            if isinstance(self.dotbkbkcorrw, xr.DataArray):  # Only the full correlations are saved
+                corrs.update({"dotbkbk": self.dotbkbkcorrw, "dotbkdx": self.dotbkdxcorrw})
+            xr.Dataset(corrs, coords={"time_trunc": np.arange(self.bkbkcorrw.shape[-1]) * self.dt}).to_netcdf(self.corrsfile)
         return self.model
 
     def compute_kernel(self, method="rectangular", k0=None):
-- 
2.43.0


From a9f345bb8a6475fa46da5a5b1ffe6a6c29a9336b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:39 +0000
Subject: [PATCH 17/29] fix: memory_trapz counted the last point of the kernel
 one and a half times on longer trajectories

---
 VolterraBasis/fkernel.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/fkernel.f90 b/VolterraBasis/fkernel.f90
index e252b6a..a2b81c3 100644
--- a/VolterraBasis/fkernel.f90
+++ b/VolterraBasis/fkernel.f90
@@ -326,7 +326,7 @@ subroutine memory_trapz(lenTraj,len_mem, dim_basis, dim_x, memory, kernel, E, dt
 
   do i=1,lenTraj !! for i in range(1, lenTraj):
     memory(i,:)=-0.5*dt*matmul(E(i,:),kernel(0,:,:))
-    do j=1,min(i-1,len_mem)
+    do j=1,min(i,len_mem)-1
        memory(i,:)=memory(i,:)-dt*matmul(E(i-j,:),kernel(j,:,:))
     end do
    memory(i,:)=memory(i,:)-0.5*dt*matmul(E(i-min(i,len_mem),:),kernel(min(i,len_mem),:,:))
-- 
2.43.0


From 1672745eac5ed66a42773ec36059b9d5674f3bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:00 +0000
Subject: [PATCH 18/29] fix: Pos_gle_hybrid summed the derivative of the basis
 over the whole trajectory

---
 VolterraBasis/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/models.py b/VolterraBasis/models.py
index c778e73..4051ee3 100644
--- a/VolterraBasis/models.py
+++ b/VolterraBasis/models.py
@@ -633,7 +633,7 @@ class Pos_gle_hybrid(Pos_gle):
             # return bk.reshape(-1, self.N_basis_elt_kernel - 1, 1)
         elif compute_for == "corrs":
             E = xr.concat([xva["v"].rename({"dim_x": "dim_basis"}), bk], dim="dim_basis")
-            dbk = xr.dot(xr.apply_ufunc(self.basis.deriv, xva["x"], input_core_dims=[["dim_x"]], output_core_dims=[["dim_basis", "dim_x"]], dask_gufunc_kwargs={"output_sizes": {"dim_basis": self.N_basis_elt, "dim_x": self.dim_x}}, dask="parallelized"), xva["v"])
+            dbk = xr.dot(xr.apply_ufunc(self.basis.deriv, xva["x"], input_core_dims=[["dim_x"]], output_core_dims=[["dim_basis", "dim_x"]], dask_gufunc_kwargs={"output_sizes": {"dim_basis": self.N_basis_elt, "dim_x": self.dim_x}}, dask="parallelized"), xva["v"], dims=["dim_x"])
             dE = xr.concat([xva["a"].rename({"dim_x": "dim_basis"}), dbk], dim="dim_basis")  # To test
             return bk, E, dE
         else:
-- 
2.43.0


From 716b6d79583bd669199a3aaa18c3beabe2976f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:00 +0000
Subject: [PATCH 19/29] fix: models loaded from a file could not evaluate their
 kernel

---
 VolterraBasis/models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/VolterraBasis/models.py b/VolterraBasis/models.py
index 4051ee3..5105cb0 100644
--- a/VolterraBasis/models.py
+++ b/VolterraBasis/models.py
@@ -53,8 +53,8 @@ class ModelBase(object):
         """
         self.L_obs = L_obs
 
-        self.dim_x = dim_x
-        self.dim_obs = dim_obs
+        self.dim_x = int(dim_x)  # Not an int when read from a file
+        self.dim_obs = int(dim_obs)
 
         self.dt = dt
         self.trunc_ind = int(trunc_ind)
-- 
2.43.0


From 3f8e27c6a70ba9c1f7338d78c6450a10d8d18750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:06 +0000
Subject: [PATCH 20/29] fix: periodic B-splines repeat the coefficients of the
 first functions, so that they are periodic and sum to one

---
 VolterraBasis/basis/_local_features.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/VolterraBasis/basis/_local_features.py b/VolterraBasis/basis/_local_features.py
index edb32fb..9122579 100644
--- a/VolterraBasis/basis/_local_features.py
+++ b/VolterraBasis/basis/_local_features.py
@@ -17,8 +17,11 @@ def _get_bspline_basis(knots, degree=3, periodic=False):
     knots, coeffs, degree = scipy.interpolate.splrep(knots, y_dummy, k=degree, per=periodic)
     ncoeffs = len(coeffs)
     bsplines = []
-    for ispline in range(nknots):
-        coeffs = np.asarray([1.0 if ispl == ispline else 0.0 for ispl in range(ncoeffs)])
+    # For periodic splines the first and last knots are the same point, hence the coefficients are repeated
+    nsplines = nknots - 1 if periodic else nknots
+    period = nsplines if periodic else ncoeffs
+    for ispline in range(nsplines):
+        coeffs = np.asarray([1.0 if ispl % period == ispline else 0.0 for ispl in range(ncoeffs)])
         bsplines.append((knots, coeffs, degree))
     return bsplines
 
-- 
2.43.0


From 44bd2c2d8a22a0dca7b0ffcea76d44bf2a858ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:48 +0000
Subject: [PATCH 21/29] fix: locate points in line meshes whose vertices are
 not sorted, such as refined meshes

---
 VolterraBasis/basis/_fem_features.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/VolterraBasis/basis/_fem_features.py b/VolterraBasis/basis/_fem_features.py
index f4c446e..0801341 100644
--- a/VolterraBasis/basis/_fem_features.py
+++ b/VolterraBasis/basis/_fem_features.py
@@ -20,9 +20,9 @@ class ElementFinder:
         # Transform mesh to triangular version if needed
         if self.dim == 1:
             self.max_point = np.max(mesh.p)  # To avoid strict < in np.digitize
-            ix = np.argsort(mesh.p)
-            self.bins = mesh.p[0, ix[0]]
-            self.bins_idx = mesh.t[0]
+            left_ends = np.min(mesh.p[0, mesh.t], axis=0)  # Vertices and elements are in any order, in a refined mesh for example
+            self.bins_idx = np.argsort(left_ends)
+            self.bins = left_ends[self.bins_idx]
             self.find = self.find_element_1D
         # elif self.dim == 2:
         #     self.find = self.find_element_2D
@@ -41,7 +41,7 @@ class ElementFinder:
         Assuming X is nsamples x 1
         """
         x = np.where(X[:, 0] == self.max_point, np.nextafter(self.max_point, -np.inf), X[:, 0])  # special case in np.digitize
-        return np.argmax((np.digitize(x, self.bins) - 1)[:, None] == self.bins_idx, axis=1)
+        return self.bins_idx[np.maximum(np.digitize(x, self.bins) - 1, 0)]
 
     def find_element_2D(self, X):
         return self.mesh_finder(X[:, 0], X[:, 1])
-- 
2.43.0


From cf7b7c0c8d3bc54582d6e0dd951dac25c6e37665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:21 +0000
Subject: [PATCH 22/29] fix: locate every point of a mesh of triangles or
 tetrahedra in an element that contains it

---
 VolterraBasis/basis/_fem_features.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/VolterraBasis/basis/_fem_features.py b/VolterraBasis/basis/_fem_features.py
index 0801341..4469279 100644
--- a/VolterraBasis/basis/_fem_features.py
+++ b/VolterraBasis/basis/_fem_features.py
@@ -47,12 +47,16 @@ class ElementFinder:
         return self.mesh_finder(X[:, 0], X[:, 1])
 
     def find_element_ND(self, X, _search_all=False):
-        tree_query = self.tree.query(X, 5)[1]
+        tree_query = self.tree.query(X, min(5, self.tree.n))[1].reshape(X.shape[0], -1)
         element_inds = np.empty((X.shape[0],), dtype=int)
         for n, point in enumerate(X):  # Try to avoid loop
             i_e = tree_query[n, :]
             X_loc = self.mapping.invF((point.T)[:, None, None], tind=i_e)
             inside = self.inside(X_loc)
+            if not inside.any():  # Either the center of the element is not one of the closest ones, or the point is on a face, up to rounding
+                i_e = np.arange(self.tree.n)
+                X_loc = self.mapping.invF((point.T)[:, None, None], tind=i_e)
+                inside = np.minimum(X_loc.min(axis=0), 1 - X_loc.sum(axis=0))  # Smallest barycentric coordinate
             element_inds[n] = i_e[np.argmax(inside, axis=0)]
         return element_inds
 
-- 
2.43.0


From 0bfecbf8d06bd926c964f33eb0a871c5efbb920c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:37 +0000
Subject: [PATCH 23/29] fix: Karhunen-Loeve noise has the requested covariance
 when eigenvalues are repeated

---
 VolterraBasis/gle_integrate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/VolterraBasis/gle_integrate.py b/VolterraBasis/gle_integrate.py
index a08e0ee..1a2dd92 100644
--- a/VolterraBasis/gle_integrate.py
+++ b/VolterraBasis/gle_integrate.py
@@ -104,7 +104,8 @@ class KarhunenLoeveNoiseGenerator:
 
         self.lenght = np.min(kernel.shape)
 
-        self.eigvals, self.eigvect = np.linalg.eig(self.kernel)
+        # A covariance is symmetric, and its eigenvectors should be orthonormal even when eigenvalues are repeated
+        self.eigvals, self.eigvect = np.linalg.eigh(self.kernel)
 
     def generate(self, size=None):
         if size is None:
-- 
2.43.0


From ba2426fa6692168f0280db0d3f506d0bf0ed542a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:01 +0000
Subject: [PATCH 24/29] fix: Karhunen-Loeve noise is finite when the covariance
 has zero eigenvalues

---
 VolterraBasis/gle_integrate.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/VolterraBasis/gle_integrate.py b/VolterraBasis/gle_integrate.py
index 1a2dd92..ce2fcdd 100644
--- a/VolterraBasis/gle_integrate.py
+++ b/VolterraBasis/gle_integrate.py
@@ -106,6 +106,7 @@ class KarhunenLoeveNoiseGenerator:
 
         # A covariance is symmetric, and its eigenvectors should be orthonormal even when eigenvalues are repeated
         self.eigvals, self.eigvect = np.linalg.eigh(self.kernel)
+        self.eigvals[np.abs(self.eigvals) < self.lenght * np.finfo(float).eps * np.max(np.abs(self.eigvals))] = 0.0  # Zeros up to rounding, that could be negative
 
     def generate(self, size=None):
         if size is None:
-- 
2.43.0


From acc819e0eaa3dc03e31b627826cac3336cfd5ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:20 +0000
Subject: [PATCH 25/29] fix: coloured noise has the requested covariance for
 any number of points, first and last ones included

---
 VolterraBasis/gle_integrate.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/VolterraBasis/gle_integrate.py b/VolterraBasis/gle_integrate.py
index ce2fcdd..db68ede 100644
--- a/VolterraBasis/gle_integrate.py
+++ b/VolterraBasis/gle_integrate.py
@@ -56,11 +56,12 @@ class ColoredNoiseGenerator:
             self.sqk[:, d, d] = ift(sqk_ft, w, t_sym).real
 
     def generate(self, size):
-        colored_noise = np.empty((max(size, self.sqk.shape[0]), self.dim))
+        colored_noise = np.empty((size, self.dim))
         for d in range(self.dim):
-            white_noise = self.rng(size=size)
-            colored_noise[:, d] = np.convolve(white_noise, self.sqk[:, d, d], mode="same")
-        return colored_noise[:size] * np.sqrt(self.dt)
+            # Enough white noise to filter the first and the last points as all the others
+            white_noise = self.rng(size=size + self.sqk.shape[0] - 1)
+            colored_noise[:, d] = np.convolve(white_noise, self.sqk[:, d, d], mode="valid")
+        return colored_noise * np.sqrt(self.dt)
 
 
 class KarhunenLoeveNoiseGenerator:
-- 
2.43.0


From e60f24c2bc40ae6d55afe61b1efbade148b1580b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:23 +0000
Subject: [PATCH 26/29] fix: prony fit of series with negative real eigenvalues
 only

---
 VolterraBasis/fit_prony.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/fit_prony.py b/VolterraBasis/fit_prony.py
index 56e316f..a09469e 100644
--- a/VolterraBasis/fit_prony.py
+++ b/VolterraBasis/fit_prony.py
@@ -105,7 +105,7 @@ def clean_eigenvalues(J, dt, remove=True, debug=False):
     # We need to duplicate real eigenvalue with negative value
     dupl = np.logical_and(np.abs(np.imag(lamb)) < 1e-15, np.real(lamb < 0))
     n_dupl = len(lamb[dupl])
-    log_lamp = np.log(lamb) / dt
+    log_lamp = np.log(lamb.astype(complex)) / dt  # Eigenvalues can all be real and some negative
     # add eigenvector
     new_vect = np.zeros((len(lamb) + n_dupl, len(lamb) + n_dupl), dtype=complex)
     new_vect[: len(lamb), : len(lamb)] = vect
-- 
2.43.0


From 9a4509df25ec05e7d0742c7af0dd0cdc806ea6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:49 +0000
Subject: [PATCH 27/29] fix: number of lags counted from the start of each
 trajectory, not from time zero

---
 VolterraBasis/gle_estimation.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/VolterraBasis/gle_estimation.py b/VolterraBasis/gle_estimation.py
index 020be91..ad7d9d2 100644
--- a/VolterraBasis/gle_estimation.py
+++ b/VolterraBasis/gle_estimation.py
@@ -125,14 +125,15 @@ class Estimator_gle(object):
                     raise Exception("Please provide dataset that include {} as variable .".format(L_obs))
 
     def _compute_trunc_ind(self, trunc):
-        lastinds = np.array([xva["time"][-1] for xva in self.xva_list])
-        smallest = np.min(lastinds)
+        durations = np.array([xva["time"][-1] - xva["time"][0] for xva in self.xva_list])  # Trajectories can start at any time
+        smallest = np.min(durations)
         if smallest < trunc:
             if self.verbose:
                 print("Warning: Found a trajectory shorter than " "the argument trunc. Override.")
             trunc = smallest
         # Find index of the time truncation
-        self.trunc_ind = (self.xva_list[0]["time"] <= trunc).sum().data
+        time = self.xva_list[0]["time"]
+        self.trunc_ind = (time - time[0] <= trunc).sum().data
         if self.verbose:
             print("Trajectories are truncated at lenght {} for dynamic analysis".format(self.trunc_ind))
         return self.trunc_ind
-- 
2.43.0


From ac474ed972b7877e13cdb016d344adc9ca852fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:57 +0000
Subject: [PATCH 28/29] fix: combined bases keep the constant of all their
 parts when it should be kept

---
 VolterraBasis/basis/_basis_features.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/VolterraBasis/basis/_basis_features.py b/VolterraBasis/basis/_basis_features.py
index 9115ce7..1aa504c 100644
--- a/VolterraBasis/basis/_basis_features.py
+++ b/VolterraBasis/basis/_basis_features.py
@@ -235,7 +235,15 @@ class FeaturesCombiner(TransformerMixin):
 
     def __init__(self, *basis):
         self.basis_set = basis
-        self.const_removed = np.any([b.const_removed for b in self.basis_set])  # Check if one of the basis set have the constant removed
+
+    @property
+    def const_removed(self):
+        return np.any([b.const_removed for b in self.basis_set])  # Check if one of the basis set have the constant removed
+
+    @const_removed.setter
+    def const_removed(self, value):
+        for b in self.basis_set:
+            b.const_removed = b.const_removed and value  # A constant that is kept should be kept by every basis
 
     def fit(self, describe_result):
         if isinstance(describe_result, np.ndarray):
-- 
2.43.0


From 0906d001b591a7950cd7e7ac27015e7ad1121543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:00 +0000
Subject: [PATCH 29/29] fix: number of lags bounded by the shortest trajectory
 whatever the rounding of the times

---
 VolterraBasis/gle_estimation.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/VolterraBasis/gle_estimation.py b/VolterraBasis/gle_estimation.py
index ad7d9d2..f659063 100644
--- a/VolterraBasis/gle_estimation.py
+++ b/VolterraBasis/gle_estimation.py
@@ -126,14 +126,12 @@ class Estimator_gle(object):
 
     def _compute_trunc_ind(self, trunc):
         durations = np.array([xva["time"][-1] - xva["time"][0] for xva in self.xva_list])  # Trajectories can start at any time
-        smallest = np.min(durations)
-        if smallest < trunc:
+        if np.min(durations) < trunc:
             if self.verbose:
                 print("Warning: Found a trajectory shorter than " "the argument trunc. Override.")
-            trunc = smallest
-        # Find index of the time truncation
+        # Find index of the time truncation, at most the number of points of the shortest trajectory
         time = self.xva_list[0]["time"]
-        self.trunc_ind = (time - time[0] <= trunc).sum().data
+        self.trunc_ind = min((time - time[0] <= trunc).sum().item(), min([xva.sizes["time"] for xva in self.xva_list]))
         if self.verbose:
             print("Trajectories are truncated at lenght {} for dynamic analysis".format(self.trunc_ind))
         return self.trunc_ind
-- 
2.43.0

