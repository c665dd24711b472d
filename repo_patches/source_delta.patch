From 41d588f6486ca721f0812dc6cab9ac3611f625ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:51 +0000
Subject: [PATCH 01/42] fix: list only existing names in __all__

`from VolterraBasis import *` raised AttributeError.
---
 VolterraBasis/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/VolterraBasis/__init__.py b/VolterraBasis/__init__.py
index 654cf73..8364f14 100644
--- a/VolterraBasis/__init__.py
+++ b/VolterraBasis/__init__.py
@@ -13,8 +13,7 @@ from .correlation import correlation_ND as correlation_fft
 from .correlation import correlation_direct_ND as correlation_direct
 
 __all__ = ["Pos_gle", "Pos_gle_with_friction", "Pos_gle_no_vel_basis", "Pos_gle_const_kernel", "Pos_gle_hybrid"]
-__all__ += ["Pos_gle_overdamped", "Pos_gle_overdamped_const_kernel"]
-__all__ += ["Trajectories_handler"]
+__all__ += ["Pos_gle_overdamped"]
 __all__ += ["Estimator_gle", "Integrator_gle"]
 __all__ += ["correlation_fft", "correlation_direct"]
 __all__ += ["memory_fit", "memory_fit_eval", "memory_fit_kernel", "memory_kernel_eval"]
-- 
2.43.0


From 113946246c0d11aee76dce5ca8f37ac824b88aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:51 +0000
Subject: [PATCH 02/42] fix: xframe accepts an acceleration without a velocity

Giving a= and not v= raised KeyError.
---
 VolterraBasis/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/__init__.py b/VolterraBasis/__init__.py
index 8364f14..41a0d1f 100644
--- a/VolterraBasis/__init__.py
+++ b/VolterraBasis/__init__.py
@@ -68,7 +68,7 @@ def xframe(x, time, v=None, a=None, fix_time=False, round_time=1.0e-4, dt=-1):
     if a is not None:
         if a.ndim == 1:
             a = a.reshape(-1, 1)
-        ds = ds[["x", "v"]].assign({"a": (["time", "dim_x"], a)})  # {"a": a})
+        ds = ds.assign({"a": (["time", "dim_x"], a)})  # {"a": a})
     return ds
 
 
-- 
2.43.0


From 389241853d5f14cb50ad48f8ccdedae07916a8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:51 +0000
Subject: [PATCH 03/42] fix: compute_1d_fe uses the binning rule it is given

Any string was replaced by "auto".
---
 VolterraBasis/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/__init__.py b/VolterraBasis/__init__.py
index 41a0d1f..48056a7 100644
--- a/VolterraBasis/__init__.py
+++ b/VolterraBasis/__init__.py
@@ -184,7 +184,7 @@ def compute_1d_fe(xva_list, bins=150, kT=2.494, hist=False):
         If False return the free energy else return the histogram
     """
     if isinstance(bins, str):
-        x_bins = np.histogram_bin_edges(np.concatenate([xva["x"].data for xva in xva_list], axis=0), bins="auto")
+        x_bins = np.histogram_bin_edges(np.concatenate([xva["x"].data for xva in xva_list], axis=0), bins=bins)
     elif isinstance(bins, int):
         # # D'abord on obtient les bins
         min_x = np.min([xva["x"].min("time") for xva in xva_list])
-- 
2.43.0


From 2fef24bcad35d7e366adf90f767b064413eae6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:51 +0000
Subject: [PATCH 04/42] fix: compute_1d_fe counts the samples at the lowest bin
 edge

The first bin was open on its left edge, which is the minimum of the data.
---
 VolterraBasis/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/__init__.py b/VolterraBasis/__init__.py
index 48056a7..605155e 100644
--- a/VolterraBasis/__init__.py
+++ b/VolterraBasis/__init__.py
@@ -197,7 +197,7 @@ def compute_1d_fe(xva_list, bins=150, kT=2.494, hist=False):
     count_bins = 0
     for xva in xva_list:
         # add v^2 to the list
-        ds_groups = xva.assign({"v2": xva["v"] * xva["v"]}).groupby_bins("x", x_bins)
+        ds_groups = xva.assign({"v2": xva["v"] * xva["v"]}).groupby_bins("x", x_bins, include_lowest=True)
         # print(ds_groups)
         mean_val += ds_groups.sum().fillna(0)
         count_bins += ds_groups.count().fillna(0)
-- 
2.43.0


From aaaae9e6eda1ce5d6b0abaaa66ba291776ac9f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:51 +0000
Subject: [PATCH 05/42] fix: FeaturesCombiner.deriv keeps the derivatives of
 all its bases

With three bases or more only the first and the last one were kept, and a single basis failed.
---
 VolterraBasis/basis/_basis_features.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/VolterraBasis/basis/_basis_features.py b/VolterraBasis/basis/_basis_features.py
index a0c2ba0..e1f1645 100644
--- a/VolterraBasis/basis/_basis_features.py
+++ b/VolterraBasis/basis/_basis_features.py
@@ -256,8 +256,8 @@ class FeaturesCombiner(TransformerMixin):
         grad = self.basis_set[0].deriv(X, deriv_order=deriv_order)
         for b in self.basis_set[1:]:
             # print(grad.shape, b.deriv(X, deriv_order=deriv_order).shape)
-            features = np.concatenate((grad, b.deriv(X, deriv_order=deriv_order)), axis=1)
-        return features
+            grad = np.concatenate((grad, b.deriv(X, deriv_order=deriv_order)), axis=1)
+        return grad
 
     def hessian(self, X):
         return self.deriv(X, deriv_order=2)
-- 
2.43.0


From 065a66b3d4d58409a3a17f353a31ba47dea565a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:51 +0000
Subject: [PATCH 06/42] fix: antiderivative of centered LinearFeatures

It ignored the mean, so its derivative was not the basis.
---
 VolterraBasis/basis/_basis_features.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/basis/_basis_features.py b/VolterraBasis/basis/_basis_features.py
index e1f1645..9115ce7 100644
--- a/VolterraBasis/basis/_basis_features.py
+++ b/VolterraBasis/basis/_basis_features.py
@@ -46,7 +46,7 @@ class LinearFeatures(TransformerMixin):
         return self.deriv(X, deriv_order=2)
 
     def antiderivative(self, X, order=1):
-        return 0.5 * np.power(X, 2)
+        return 0.5 * np.power(X, 2) - self.mean_ * X
 
 
 class PolynomialFeatures(TransformerMixin):
-- 
2.43.0


From e245c8b8937aeaab1ff3306815dfc97adc457b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:51 +0000
Subject: [PATCH 07/42] fix: TensorialBasis2D fits each direction on its own
 data

With a single basis given, both directions shared one object, and the fit of the second direction replaced the first.
---
 VolterraBasis/basis/_multidim_basis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/VolterraBasis/basis/_multidim_basis.py b/VolterraBasis/basis/_multidim_basis.py
index 9355d4a..8b385f9 100644
--- a/VolterraBasis/basis/_multidim_basis.py
+++ b/VolterraBasis/basis/_multidim_basis.py
@@ -1,6 +1,8 @@
 """
 This the main estimator module
 """
+from copy import deepcopy
+
 import numpy as np
 import scipy.stats
 from sklearn.base import TransformerMixin
@@ -16,7 +18,7 @@ class TensorialBasis2D(TransformerMixin):
         """Take two of basis"""
         self.b1 = b1
         if b2 is None:
-            self.b2 = b1
+            self.b2 = deepcopy(b1)  # Each direction is fitted on its own data
         else:
             self.b2 = b2
         # Force rank projection
-- 
2.43.0


From 90c7d46e48fb3231d70ab1ebd76a0007ba40ae3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:59 +0000
Subject: [PATCH 08/42] fix: compute_gram_kernel with a rank projection

It read a missing attribute of the estimator.
---
 VolterraBasis/gle_estimation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/VolterraBasis/gle_estimation.py b/VolterraBasis/gle_estimation.py
index a25d0be..cb11676 100644
--- a/VolterraBasis/gle_estimation.py
+++ b/VolterraBasis/gle_estimation.py
@@ -211,7 +211,8 @@ class Estimator_gle(object):
             print("Calculate kernel gram...")
         self.model.gram_kernel = self.loop_over_trajs(self._compute_gram, self.model, gram_type="kernel")[0]
         if self.model.rank_projection:
-            self.model.gram_kernel = np.einsum("lj,jk,mk->lm", self.model.P_range, self.gram_kernel, self.model.P_range)
+            P_range = self.model.P_range.to_numpy()
+            self.model.gram_kernel = xr.DataArray(P_range @ self.model.gram_kernel.to_numpy() @ P_range.T, dims=self.model.gram_kernel.dims)
         return self.model
 
     def compute_effective_mass(self):
-- 
2.43.0


From f7d4e473fcbcde371bfdedbaeac7e414928f7011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:59 +0000
Subject: [PATCH 09/42] fix: compute_noise keeps one force per component of the
 observable

The force was summed over the components.
---
 VolterraBasis/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/models.py b/VolterraBasis/models.py
index 249959c..0af3fdf 100644
--- a/VolterraBasis/models.py
+++ b/VolterraBasis/models.py
@@ -159,7 +159,7 @@ class ModelBase(object):
         E_force, E, _ = self.basis_vector(xva)
         if self.rank_projection:
             E = matmulPrange(self.P_range, E)
-        force = xr.dot(E_force, self.force_coeff, dims=["dim_basis", "dim_x"])
+        force = xr.dot(E_force, self.force_coeff, dims=["dim_basis"])
         if self.method in ["rect", "rectangular", "second_kind_rect"] or self.method is None:
             memory = memory_rect(self.kernel[:trunc_kernel], E, dt)
         elif self.method == "trapz" or self.method == "second_kind_trapz":
-- 
2.43.0


From 9af3bbef76b79f5a0883389dae554421f7ee9b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:59 +0000
Subject: [PATCH 10/42] fix: trapezoidal weight of the last kernel point in
 memory_trapz

Once the history was longer than the kernel, the end point had weight 3/2 instead of 1/2.
---
 VolterraBasis/fkernel.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/fkernel.f90 b/VolterraBasis/fkernel.f90
index f99caa5..9347333 100644
--- a/VolterraBasis/fkernel.f90
+++ b/VolterraBasis/fkernel.f90
@@ -326,7 +326,7 @@ subroutine memory_trapz(lenTraj,len_mem, dim_basis, dim_x, memory, kernel, E, dt
 
   do i=1,lenTraj !! for i in range(1, lenTraj):
     memory(i,:)=-0.5*dt*matmul(E(i,:),kernel(0,:,:))
-    do j=1,min(i-1,len_mem)
+    do j=1,min(i,len_mem)-1
        memory(i,:)=memory(i,:)-dt*matmul(E(i-j,:),kernel(j,:,:))
     end do
    memory(i,:)=memory(i,:)-0.5*dt*matmul(E(i-min(i,len_mem),:),kernel(min(i,len_mem),:,:))
-- 
2.43.0


From 3d1d8c8a68a54ccf5f5c7b1e89bb3ecdc497fd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:59 +0000
Subject: [PATCH 11/42] fix: quadrature points of the midpoint method

The kernel at time t was paired with correlations one step too early, its first value
was half of what it should be and its last value was not set for an even truncation.
---
 VolterraBasis/fkernel.f90 | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/VolterraBasis/fkernel.f90 b/VolterraBasis/fkernel.f90
index 9347333..0d65ada 100644
--- a/VolterraBasis/fkernel.f90
+++ b/VolterraBasis/fkernel.f90
@@ -145,11 +145,12 @@ subroutine kernel_first_kind_midpoint(lenTraj, dim_basis,dim_x, kernel,  B, DxB,
 
   kernel(0,:,:)=-1*matmul(invB0,DxB(:,:,1))
 
-  do i=1,lenTraj/2-1 !! for i in range(1, lenTraj):
-     call midpoint_integral(num,2*dt,i,B(:,:,0:2*i),kernel(0:i,:,:),dim_basis,dim_x,dim_basis)
+  do i=1,(lenTraj-1)/2 !! for i in range(1, lenTraj):
+     call midpoint_integral(num,2*dt,i,B(:,:,1:2*i+1),kernel(0:i,:,:),dim_basis,dim_x,dim_basis)
      kernel(i,:,:)=-1*matmul(invB0,num+DxB(:,:,2*i+1))
   end do
 
+  kernel(0,:,:)=2*kernel(0,:,:) ! The first cell is only half as long as the others
 
 end subroutine kernel_first_kind_midpoint
 
-- 
2.43.0


From c7b8fcb106d807af724364e8b4cdf6348ffd79f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:59 +0000
Subject: [PATCH 12/42] fix: time axis of the history in solve_ide_trapz_stab

The history was sliced along the wrong axis, outside of the array.
---
 VolterraBasis/fkernel.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/fkernel.f90 b/VolterraBasis/fkernel.f90
index 0d65ada..3bd2f36 100644
--- a/VolterraBasis/fkernel.f90
+++ b/VolterraBasis/fkernel.f90
@@ -478,7 +478,7 @@ subroutine solve_ide_trapz_stab(len_mem, dim_basis, dim_other, kernel, E0, f_coe
 
   do i=1,lenTraj-1
     max_len = min(i,len_mem)
-    call trapz_integral(memory,dt,max_len, E(i-max_len:i,:,:),kernel(0:max_len,:,:),dim_basis,dim_basis,dim_other)
+    call trapz_integral(memory,dt,max_len, E(:,:,i-max_len:i),kernel(0:max_len,:,:),dim_basis,dim_basis,dim_other)
     E(:,:,i) = matmul(E(:,:,i-1)-dt*memory+dt*matmul(E(:,:,i-1),f_coeff),invK0)
     ! projection onto the unit simplex for stabilisation, start with simple normalization
     E(:,:,i) = max(E(:,:,i),0.)
-- 
2.43.0


From fa4a71ba97634f1440082888a114da84a590b3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:31 +0000
Subject: [PATCH 13/42] fix: laplace_transform_kernel reads the time axis of
 the kernel

It always raised KeyError.
---
 VolterraBasis/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/models.py b/VolterraBasis/models.py
index 0af3fdf..a0da4ee 100644
--- a/VolterraBasis/models.py
+++ b/VolterraBasis/models.py
@@ -359,7 +359,7 @@ class ModelBase(object):
         s_range = np.linspace(s_start, s_end, n_points)
         laplace = np.zeros((n_points, self.kernel.shape[1], self.kernel.shape[2]))
         for n, s in enumerate(s_range):
-            laplace[n, :, :] = simpson(np.einsum("i,ijk-> ijk", np.exp(-s * self.kernel["time"][:, 0]), self.kernel), self.kernel["time"][:, 0], axis=0)
+            laplace[n, :, :] = simpson(np.einsum("i,ijk-> ijk", np.exp(-s * self.kernel["time_kernel"]), self.kernel), self.kernel["time_kernel"].to_numpy(), axis=0)
         return s_range, laplace
 
     def save_model(self):
-- 
2.43.0


From 06dddd119f55b1837a41ae9a69627f59f894b824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:31 +0000
Subject: [PATCH 14/42] fix: the files of an estimator carry its prefix

The prefix argument was ignored, so that two estimators overwrote each other.
---
 VolterraBasis/gle_estimation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/VolterraBasis/gle_estimation.py b/VolterraBasis/gle_estimation.py
index cb11676..b93d2dd 100644
--- a/VolterraBasis/gle_estimation.py
+++ b/VolterraBasis/gle_estimation.py
@@ -56,8 +56,8 @@ class Estimator_gle(object):
         self.verbose = verbose
 
         # filenames
-        self.corrsfile = "corrs.nc"
-        self.kernelfile = "kernel.nc"
+        self.corrsfile = self.prefix + "corrs.nc"
+        self.kernelfile = self.prefix + "kernel.nc"
 
         self.data_describe = None
 
-- 
2.43.0


From c4df2bca53889dd8bf98acaf870584d3e18ba568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:31 +0000
Subject: [PATCH 15/42] fix: compute_kernel before compute_corrs says that the
 correlations are missing

The test for missing correlations raised AttributeError.
---
 VolterraBasis/gle_estimation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/VolterraBasis/gle_estimation.py b/VolterraBasis/gle_estimation.py
index b93d2dd..4e7741b 100644
--- a/VolterraBasis/gle_estimation.py
+++ b/VolterraBasis/gle_estimation.py
@@ -61,6 +61,9 @@ class Estimator_gle(object):
 
         self.data_describe = None
 
+        self.bkbkcorrw, self.bkdxcorrw = None, None
+        self.dotbkbkcorrw, self.dotbkdxcorrw = None, None
+
         self._do_check(xva_arg)  # Do some check on the trajectories
 
         # Save trajectory properties
-- 
2.43.0


From a48966f5636b0beb23aad8e71c4da8d2b8bfdb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:44 +0000
Subject: [PATCH 16/42] fix: correlations without second order method

Saving them raised ValueError, and asking afterwards for a second kind kernel raised
AttributeError instead of saying which correlations are missing.
---
 VolterraBasis/gle_estimation.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/VolterraBasis/gle_estimation.py b/VolterraBasis/gle_estimation.py
index 4e7741b..853d245 100644
--- a/VolterraBasis/gle_estimation.py
+++ b/VolterraBasis/gle_estimation.py
@@ -287,8 +287,13 @@ class Estimator_gle(object):
                 self.dotbkdxcorrw = xr.dot(P_range, self.dotbkdxcorrw.rename({"dim_basis": "dim_basis_old"}))
             if isinstance(self.dotbkbkcorrw, xr.DataArray):
                 self.dotbkbkcorrw = xr.dot(P_range_tranpose, P_range, self.dotbkbkcorrw.rename({"dim_basis": "dim_basis_old", "dim_basis'": "dim_basis_old'"}))
+        if not isinstance(self.dotbkbkcorrw, xr.DataArray):
+            self.dotbkbkcorrw = None  # Not computed without second order method
         if self.saveall:
-            xr.Dataset({"bkbk": self.bkbkcorrw, "bkdx": self.bkdxcorrw, "dotbkbk": self.dotbkbkcorrw, "dotbkdx": self.dotbkdxcorrw}, coords={"time_trunc": np.arange(self.bkbkcorrw.shape[-1]) * self.dt}).to_netcdf(self.corrsfile)
+            corrs = {"bkbk": self.bkbkcorrw, "bkdx": self.bkdxcorrw}
+            if self.dotbkbkcorrw is not None:
+                corrs.update({"dotbkbk": self.dotbkbkcorrw, "dotbkdx": self.dotbkdxcorrw})
+            xr.Dataset(corrs, coords={"time_trunc": np.arange(self.bkbkcorrw.shape[-1]) * self.dt}).to_netcdf(self.corrsfile)
         return self.model
 
     def compute_kernel(self, method="rectangular", k0=None):
-- 
2.43.0


From 0ef6814267f1c41d4cccf177c91e9c54304edf85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:34 +0000
Subject: [PATCH 17/42] fix: force term of flux_from_volterra

The coefficients were contracted on the side of the observable instead of the basis.
---
 VolterraBasis/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/models.py b/VolterraBasis/models.py
index a0da4ee..1dcb381 100644
--- a/VolterraBasis/models.py
+++ b/VolterraBasis/models.py
@@ -332,7 +332,7 @@ class ModelBase(object):
             kernel = np.asarray(kernel)
         if trunc_ind is not None:
             kernel = kernel[:trunc_ind, :, :]
-        force_term = np.matmul(force_coeff, corrs_force)
+        force_term = np.einsum("obt,bc->oct", corrs_force, force_coeff)
         res_int = np.zeros((corrs_kernel.shape[-1], corrs_kernel.shape[1], kernel.shape[-1]))
         for n in range(1, corrs_kernel.shape[-1]):
             max_len = min(n, kernel.shape[0])
-- 
2.43.0


From 68e1d052329d1cb373f174f0600375809185619d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:34 +0000
Subject: [PATCH 18/42] fix: memory term of flux_from_volterra

The integral at one time used the history of the previous one and had no end point, and
the result had the wrong shape for a rectangular correlation.
---
 VolterraBasis/models.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/VolterraBasis/models.py b/VolterraBasis/models.py
index 1dcb381..44d5667 100644
--- a/VolterraBasis/models.py
+++ b/VolterraBasis/models.py
@@ -333,15 +333,18 @@ class ModelBase(object):
         if trunc_ind is not None:
             kernel = kernel[:trunc_ind, :, :]
         force_term = np.einsum("obt,bc->oct", corrs_force, force_coeff)
-        res_int = np.zeros((corrs_kernel.shape[-1], corrs_kernel.shape[1], kernel.shape[-1]))
+        corrs_kernel = np.asarray(corrs_kernel)
+        res_int = np.zeros((corrs_kernel.shape[-1], corrs_kernel.shape[0], kernel.shape[-1]))
         for n in range(1, corrs_kernel.shape[-1]):
-            max_len = min(n, kernel.shape[0])
+            max_len = min(n, kernel.shape[0] - 1)
+            history = corrs_kernel[:, :, n - max_len : n + 1]
+            last = history[:, :, 0] @ kernel[max_len]  # The integral routines leave out this end point
             if method == "rect":
-                res_int[n, :] = -1 * rect_integral(self.dt, corrs_kernel[:, :, n - max_len : n], kernel[:max_len, :, :])
-            elif method == "trapz":
-                res_int[n, :] = -1 * trapz_integral(self.dt, corrs_kernel[:, :, n - max_len : n], kernel[:max_len, :, :])
+                res_int[n, :] = -1 * rect_integral(self.dt, history, kernel[: max_len + 1, :, :])
+            elif method == "trapz" or (method == "simpson" and max_len < 2):
+                res_int[n, :] = -1 * (trapz_integral(self.dt, history, kernel[: max_len + 1, :, :]) + 0.5 * self.dt * last)
             elif method == "simpson":
-                res_int[n, :] = -1 * simpson_integral(self.dt, corrs_kernel[:, :, n - max_len : n], kernel[:max_len, :, :])
+                res_int[n, :] = -1 * (simpson_integral(self.dt, history, kernel[: max_len + 1, :, :]) + self.dt / 3.0 * last)
 
         return force_term, res_int
 
-- 
2.43.0


From 42d7d69cf72bb47bec3145077574809d365e1105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:34 +0000
Subject: [PATCH 19/42] fix: correlation_direct of one array correlates all
 pairs of its rows

Every row of the result was the autocorrelation of the columns.
---
 VolterraBasis/correlation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/VolterraBasis/correlation.py b/VolterraBasis/correlation.py
index 9b4eaed..a4b1ec2 100644
--- a/VolterraBasis/correlation.py
+++ b/VolterraBasis/correlation.py
@@ -63,10 +63,10 @@ def correlation_direct_ND(a, b=None, trunc=None):
     else:
         len_trunc = a.shape[-1]
     len_dat = a.shape[-1]
-    if b is None:
-        b = a
+    if b is None:  # All pairs, in the same order as correlation_ND
+        a, b = a[np.newaxis, ...], a[:, np.newaxis, ...]
     # TODO: vérifier le type de l'array a et créer un array vide du même type
-    res = np.zeros((a.shape[0], b.shape[0], len_trunc))
+    res = np.zeros(np.broadcast_shapes(a.shape[:-1], b.shape[:-1]) + (len_trunc,))
     res[:, :, 0] = (a * b).sum(axis=-1) / len_dat
     for n in range(1, len_trunc):
         res[:, :, n] = (a[..., :-n] * b[..., n:]).sum(axis=-1) / (len_dat - n)
-- 
2.43.0


From d75e0ec3f6f49a2270bca7312d60c332a08bdd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:03 +0000
Subject: [PATCH 20/42] fix: load_model leaves the saved model as it is

Keyword arguments were written in the attributes of the dataset they override.
---
 VolterraBasis/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/models.py b/VolterraBasis/models.py
index 44d5667..b155023 100644
--- a/VolterraBasis/models.py
+++ b/VolterraBasis/models.py
@@ -389,7 +389,7 @@ class ModelBase(object):
         """
         # A partir des attibuts du DataSet construire un dictionnaire des arguments à donner
         # kwargs = .. dim_x, dim_obs, trunc_ind, L_obs, describe_data
-        cls_attrs = coeffs.attrs
+        cls_attrs = dict(coeffs.attrs)
         for key, value in kwargs.items():
             cls_attrs[key] = value
         model = cls(basis, **cls_attrs)
-- 
2.43.0


From 19205e85706ad8bb657364127c4f92565481ead8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:03 +0000
Subject: [PATCH 21/42] fix: load_model restores everything that save_model
 saves

Without the inversion method a loaded model computed another noise than the saved one, and
without the effective mass another free energy.
---
 VolterraBasis/models.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/VolterraBasis/models.py b/VolterraBasis/models.py
index b155023..c9a7cb1 100644
--- a/VolterraBasis/models.py
+++ b/VolterraBasis/models.py
@@ -394,9 +394,12 @@ class ModelBase(object):
             cls_attrs[key] = value
         model = cls(basis, **cls_attrs)
 
-        for key in ["force_coeff", "kernel", "rank_projection", "P_range", "gram_force"]:
+        for key in ["force_coeff", "kernel", "P_range", "gram_force", "gram_kernel", "eff_mass", "inv_mass_coeff"]:
             if key in coeffs:
                 setattr(model, key, coeffs[key])
+        for key in ["rank_projection", "method"]:
+            if key in coeffs:
+                setattr(model, key, coeffs[key].item())
         if model.force_coeff is not None:
             model.force_coeff = model.force_coeff.rename({"dim_basis_force": "dim_basis"})
         if model.gram_force is not None:
-- 
2.43.0


From bde633b2b78ca73cc78512e3c91e236eebd5df0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:34 +0000
Subject: [PATCH 22/42] fix: save_model after compute_gram_kernel or
 compute_pos_effective_mass

When their basis is not the one of the kernel, the sizes of the dimensions conflicted.
---
 VolterraBasis/models.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/VolterraBasis/models.py b/VolterraBasis/models.py
index c9a7cb1..54f22d6 100644
--- a/VolterraBasis/models.py
+++ b/VolterraBasis/models.py
@@ -378,6 +378,8 @@ class ModelBase(object):
         for key, dat in self.__dict__.items():
             if key not in coeffs.attrs and key not in ["basis", "force_coeff", "gram_force", "N_basis_elt_force", "N_basis_elt_kernel"]:  # Eclude some vaiable
                 if dat is not None:
+                    if key in ["gram_kernel", "inv_mass_coeff"]:  # They need not have the same basis as the kernel
+                        dat = dat.rename({dim: dim.replace("dim_basis", "dim_basis_" + key) for dim in dat.dims})
                     coeffs.update({key: dat})
 
         return coeffs
@@ -397,6 +399,10 @@ class ModelBase(object):
         for key in ["force_coeff", "kernel", "P_range", "gram_force", "gram_kernel", "eff_mass", "inv_mass_coeff"]:
             if key in coeffs:
                 setattr(model, key, coeffs[key])
+        for key in ["gram_kernel", "inv_mass_coeff"]:
+            dat = getattr(model, key)
+            if dat is not None:
+                setattr(model, key, dat.rename({dim: dim.replace("dim_basis_" + key, "dim_basis") for dim in dat.dims}))
         for key in ["rank_projection", "method"]:
             if key in coeffs:
                 setattr(model, key, coeffs[key].item())
-- 
2.43.0


From 89f25ea9e0a38fb713cfc1950b9f71007df60543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:06 +0000
Subject: [PATCH 23/42] fix: Pos_gle_hybrid in more than one dimension

The basis has one velocity per dimension, the sizes assumed a single one.
---
 VolterraBasis/models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/VolterraBasis/models.py b/VolterraBasis/models.py
index 54f22d6..1a49f29 100644
--- a/VolterraBasis/models.py
+++ b/VolterraBasis/models.py
@@ -623,7 +623,7 @@ class Pos_gle_hybrid(Pos_gle):
     def __init__(self, *args, **kwargs):
         ModelBase.__init__(self, *args, **kwargs)
         self.N_basis_elt_force = self.N_basis_elt
-        self.N_basis_elt_kernel = self.N_basis_elt + 1
+        self.N_basis_elt_kernel = self.N_basis_elt + self.dim_x
         if self.basis.const_removed:
             self.basis.const_removed = False
             print("Warning: remove_const on basis function have been set to False.")
@@ -664,7 +664,7 @@ class Pos_gle_hybrid(Pos_gle):
         E = self.basis_vector(_convert_input_array_for_evaluation(x, self.dim_x), compute_for="kernel")
         if self.rank_projection:
             E = matmulPrange(self.P_range, E)
-        return xr.dot(self.kernel.sel(dim_basis=slice(1, None)), E.rename({"dim_x": "dim_x'"}))
+        return xr.dot(self.kernel.sel(dim_basis=slice(self.dim_x, None)), E.rename({"dim_x": "dim_x'"}))
         # return self.kernel["time_kernel"], np.einsum("jkd,ikl->ijld", E, self.kernel[:, 1:, :])  # Return the kernel as array (time x nb of evalution point x dim_obs x dim_x)
 
 
-- 
2.43.0


From b75a91bb4ab0354dec9ad86b68cee2b3f9983897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:06 +0000
Subject: [PATCH 24/42] fix: integrator from bare coefficients or with a
 truncated kernel

The noise generator always took the time axis of the whole kernel of a model.
---
 VolterraBasis/gle_integrate.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/VolterraBasis/gle_integrate.py b/VolterraBasis/gle_integrate.py
index 5b69dae..a08e0ee 100644
--- a/VolterraBasis/gle_integrate.py
+++ b/VolterraBasis/gle_integrate.py
@@ -223,7 +223,11 @@ class Integrator_gle(object):
 
         self.trunc_kernel = self.kernel.shape[0]
 
-        self.noise_generator = ColoredNoiseGenerator(kernel_noise, gle_model.kernel["time_kernel"].to_numpy(), rng=rng)
+        if gle_model is not None:
+            time_kernel = gle_model.kernel["time_kernel"].to_numpy()[: self.trunc_kernel]
+        else:
+            time_kernel = np.arange(self.trunc_kernel) * self.dt
+        self.noise_generator = ColoredNoiseGenerator(kernel_noise, time_kernel, rng=rng)
 
     def _copy_from_estimator(self, gle_model, trunc_kernel=None):
         """
-- 
2.43.0


From ad637e6195597fbc20372953891f0cbde50432c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:06 +0000
Subject: [PATCH 25/42] fix: Prony fit with N_keep at least as large as the
 number of singular values

It raised IndexError.
---
 VolterraBasis/fit_prony.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/VolterraBasis/fit_prony.py b/VolterraBasis/fit_prony.py
index caadf4d..8dd6402 100644
--- a/VolterraBasis/fit_prony.py
+++ b/VolterraBasis/fit_prony.py
@@ -42,7 +42,8 @@ def ldl_hankel(y, n=None, thres=None, N_keep=None):
     else:
         N = min(N_keep, N_rank)  # Number of singular values to keep, given from rank of Hankel matrix or from input
         # Update the thresold from highest non keeped singular value
-        thres = s_svd[N]
+        if N < len(s_svd):
+            thres = s_svd[N]
     N = min(N, n)  # Limit the number of vector
     # Keep only the N highest singular value
     # print("Prony: Singular values. Value lower than thres are considered zero.")
@@ -139,7 +140,8 @@ def prony_inspect_data(data, thres=None, N_keep=None):
     else:
         N = min(N_keep, N_rank)  # Number of singular values to keep, given from rank of Hankel matrix or from input
         # Update the thresold from highest non keeped singular value
-        thres = s_svd[N]
+        if N < len(s_svd):
+            thres = s_svd[N]
     N = min(N, n)  # Limit the number of vector
     # Keep only the N highest singular value
     print("Prony: Singular values. Value lower than thres are considered zero.")
-- 
2.43.0


From 11472ecdd29a33f507e3c875f30c39890376516e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:06 +0000
Subject: [PATCH 26/42] fix: the 1D element finder does not write in the data

Points at the end of the mesh were moved in the array of the caller.
---
 VolterraBasis/basis/_fem_features.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/VolterraBasis/basis/_fem_features.py b/VolterraBasis/basis/_fem_features.py
index cbae7d9..63db447 100644
--- a/VolterraBasis/basis/_fem_features.py
+++ b/VolterraBasis/basis/_fem_features.py
@@ -40,9 +40,8 @@ class ElementFinder:
         """
         Assuming X is nsamples x 1
         """
-        maxix = X[:, 0] == self.max_point
-        X[maxix, 0] = X[maxix, 0] - 1e-10  # special case in np.digitize
-        return np.argmax((np.digitize(X[:, 0], self.bins) - 1)[:, None] == self.bins_idx, axis=1)
+        x = np.where(X[:, 0] == self.max_point, self.bins[-2], X[:, 0])  # special case in np.digitize
+        return np.argmax((np.digitize(x, self.bins) - 1)[:, None] == self.bins_idx, axis=1)
 
     def find_element_2D(self, X):
         return self.mesh_finder(X[:, 0], X[:, 1])
-- 
2.43.0


From 231a792a206e0826a111639de807c405d343c49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:06 +0000
Subject: [PATCH 27/42] fix: 1D element finder on a mesh with unsorted vertices

On a refined mesh the points were put in other elements.
---
 VolterraBasis/basis/_fem_features.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/basis/_fem_features.py b/VolterraBasis/basis/_fem_features.py
index 63db447..b0edf2c 100644
--- a/VolterraBasis/basis/_fem_features.py
+++ b/VolterraBasis/basis/_fem_features.py
@@ -22,7 +22,7 @@ class ElementFinder:
             self.max_point = np.max(mesh.p)  # To avoid strict < in np.digitize
             ix = np.argsort(mesh.p)
             self.bins = mesh.p[0, ix[0]]
-            self.bins_idx = mesh.t[0]
+            self.bins_idx = np.argsort(ix[0])[mesh.t].min(axis=0)  # Rank of the leftmost vertex of each element
             self.find = self.find_element_1D
         # elif self.dim == 2:
         #     self.find = self.find_element_2D
-- 
2.43.0


From 04553b14ee9de97421d545a16348799f87ca161c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:06 +0000
Subject: [PATCH 28/42] fix: element finder in two and three dimensions

It failed on meshes of less than five elements and in 3D, and took the nearest element when
the right one was not among the five nearest.
---
 VolterraBasis/basis/_fem_features.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/VolterraBasis/basis/_fem_features.py b/VolterraBasis/basis/_fem_features.py
index b0edf2c..323c42c 100644
--- a/VolterraBasis/basis/_fem_features.py
+++ b/VolterraBasis/basis/_fem_features.py
@@ -47,12 +47,16 @@ class ElementFinder:
         return self.mesh_finder(X[:, 0], X[:, 1])
 
     def find_element_ND(self, X, _search_all=False):
-        tree_query = self.tree.query(X, 5)[1]
+        n_elem = self.tree.n
+        tree_query = self.tree.query(X, np.arange(1, min(5, n_elem) + 1))[1]
         element_inds = np.empty((X.shape[0],), dtype=int)
         for n, point in enumerate(X):  # Try to avoid loop
             i_e = tree_query[n, :]
             X_loc = self.mapping.invF((point.T)[:, None, None], tind=i_e)
             inside = self.inside(X_loc)
+            if not np.any(inside):  # The element is not among the nearest ones
+                i_e = np.arange(n_elem)
+                inside = self.inside(self.mapping.invF((point.T)[:, None, None], tind=i_e))
             element_inds[n] = i_e[np.argmax(inside, axis=0)]
         return element_inds
 
@@ -62,7 +66,7 @@ class ElementFinder:
         """
         return (X[0] >= -np.finfo(X.dtype).eps) * (X[1] >= -np.finfo(X.dtype).eps) * (1 - X[0] - X[1] >= -np.finfo(X.dtype).eps)
 
-    def inside_3D(X):
+    def inside_3D(self, X):
         """
         Say which point are inside the element
         """
-- 
2.43.0


From 7b83f41dafac516bb34f4b3695088ebfefbc1f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:23 +0000
Subject: [PATCH 29/42] fix: FEMScalarFeatures.deriv in two and three
 dimensions

The values were listed with the dimension last, their indices with the dimension first.
---
 VolterraBasis/basis/_fem_features.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/basis/_fem_features.py b/VolterraBasis/basis/_fem_features.py
index 323c42c..ec03749 100644
--- a/VolterraBasis/basis/_fem_features.py
+++ b/VolterraBasis/basis/_fem_features.py
@@ -126,7 +126,7 @@ class FEMScalarFeatures(TransformerMixin):
         pts = self.basis_fem.mapping.invF(x[:, :, np.newaxis], tind=cells)
         phis = np.array([self.basis_fem.elem.gbasis(self.basis_fem.mapping, pts, k, tind=cells)[0].grad.transpose([1, 2, 0]) for k in range(self.basis_fem.Nbfun)])  # TODO: vérifier la shape et en extraire les diverses dimensions
         return sparse.COO(
-            (np.tile(np.arange(nsamples), dim * self.basis_fem.Nbfun), np.tile(self.basis_fem.element_dofs[:, cells].flatten(), dim), np.repeat(np.arange(dim), nsamples * self.basis_fem.Nbfun)), np.ravel(phis), shape=(nsamples, self.n_output_features_, dim)  # Le dernier array doit être 000011111222
+            (np.tile(np.arange(nsamples), dim * self.basis_fem.Nbfun), np.tile(self.basis_fem.element_dofs[:, cells].flatten(), dim), np.repeat(np.arange(dim), nsamples * self.basis_fem.Nbfun)), np.ravel(np.moveaxis(phis, -1, 0)), shape=(nsamples, self.n_output_features_, dim)  # Le dernier array doit être 000011111222
         ).todense()  # .todense(): Temporary workaround to the absence if einsum in sparse library
 
     def hessian(self, X):  # Only for Elementglobal
-- 
2.43.0


From 8e58bcc5fc42a006be087d2259255d3b5c551fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:00 +0000
Subject: [PATCH 30/42] fix: orthogonal eigenvectors in the Karhunen-Loeve
 noise

With a repeated eigenvalue the noise had another covariance than the one given.
---
 VolterraBasis/gle_integrate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/gle_integrate.py b/VolterraBasis/gle_integrate.py
index a08e0ee..9169193 100644
--- a/VolterraBasis/gle_integrate.py
+++ b/VolterraBasis/gle_integrate.py
@@ -104,7 +104,7 @@ class KarhunenLoeveNoiseGenerator:
 
         self.lenght = np.min(kernel.shape)
 
-        self.eigvals, self.eigvect = np.linalg.eig(self.kernel)
+        self.eigvals, self.eigvect = np.linalg.eigh(self.kernel)
 
     def generate(self, size=None):
         if size is None:
-- 
2.43.0


From 08ba8a28b416f8337784314774639f299b25e847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:00 +0000
Subject: [PATCH 31/42] fix: Karhunen-Loeve noise of a singular covariance

Eigenvalues which are zero up to rounding errors gave nan.
---
 VolterraBasis/gle_integrate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/gle_integrate.py b/VolterraBasis/gle_integrate.py
index 9169193..901ff4d 100644
--- a/VolterraBasis/gle_integrate.py
+++ b/VolterraBasis/gle_integrate.py
@@ -114,7 +114,7 @@ class KarhunenLoeveNoiseGenerator:
             # TODO: Use stationary assumption that kernel does not evolve anymore to generate more noise
             # TODO: Use periodic assumption
         white_noise = self.rng(size=self.lenght)
-        colored_noise = self.eigvect @ np.diag(np.sqrt(self.eigvals)) @ white_noise
+        colored_noise = self.eigvect @ np.diag(np.sqrt(np.maximum(self.eigvals, 0.0))) @ white_noise
         return colored_noise[:size] * np.sqrt(self.dt)
 
 
-- 
2.43.0


From 31071a8cee3690a906e9bc81853be8320bc1046d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:46 +0000
Subject: [PATCH 32/42] fix: Pos_gle_const_kernel with an observable of another
 dimension than the position

---
 VolterraBasis/models.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/VolterraBasis/models.py b/VolterraBasis/models.py
index 1a49f29..9dc2fa5 100644
--- a/VolterraBasis/models.py
+++ b/VolterraBasis/models.py
@@ -594,7 +594,7 @@ class Pos_gle_const_kernel(Pos_gle):
     def __init__(self, *args, **kwargs):
         ModelBase.__init__(self, *args, **kwargs)
         self.N_basis_elt_force = self.N_basis_elt
-        self.N_basis_elt_kernel = self.dim_obs
+        self.N_basis_elt_kernel = self.dim_x
 
     def basis_vector(self, xva, compute_for="corrs"):
         bk = xr.apply_ufunc(self.basis.basis, xva["x"], input_core_dims=[["dim_x"]], output_core_dims=[["dim_basis"]], exclude_dims={"dim_x"}, dask_gufunc_kwargs={"output_sizes": {"dim_basis": self.N_basis_elt}}, dask="parallelized")
@@ -603,8 +603,8 @@ class Pos_gle_const_kernel(Pos_gle):
         elif compute_for == "pmf":
             return xr.apply_ufunc(self.basis.antiderivative, xva["x"], input_core_dims=[["dim_x"]], output_core_dims=[["dim_basis"]], exclude_dims={"dim_x"}, dask_gufunc_kwargs={"output_sizes": {"dim_basis": self.N_basis_elt}}, dask="parallelized")
         if compute_for == "kernel":  # For kernel evaluation
-            grad = np.zeros((bk.shape[0], self.dim_obs, self.dim_obs))
-            for i in range(self.dim_obs):
+            grad = np.zeros((bk.shape[0], self.dim_x, self.dim_x))
+            for i in range(self.dim_x):
                 grad[:, i, i] = 1.0
             return xr.DataArray(grad, dims=("time", "dim_basis", "dim_x"))
         elif compute_for == "corrs":
-- 
2.43.0


From dc453184b99d7426b6cb63493102cd2e99bbad00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:02 +0000
Subject: [PATCH 33/42] fix: time derivative of the hybrid basis along the
 trajectory

---
 VolterraBasis/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/models.py b/VolterraBasis/models.py
index 9dc2fa5..bcb7fb4 100644
--- a/VolterraBasis/models.py
+++ b/VolterraBasis/models.py
@@ -641,7 +641,7 @@ class Pos_gle_hybrid(Pos_gle):
             # return bk.reshape(-1, self.N_basis_elt_kernel - 1, 1)
         elif compute_for == "corrs":
             E = xr.concat([xva["v"].rename({"dim_x": "dim_basis"}), bk], dim="dim_basis")
-            dbk = xr.dot(xr.apply_ufunc(self.basis.deriv, xva["x"], input_core_dims=[["dim_x"]], output_core_dims=[["dim_basis", "dim_x"]], dask_gufunc_kwargs={"output_sizes": {"dim_basis": self.N_basis_elt, "dim_x": self.dim_x}}, dask="parallelized"), xva["v"])
+            dbk = xr.dot(xr.apply_ufunc(self.basis.deriv, xva["x"], input_core_dims=[["dim_x"]], output_core_dims=[["dim_basis", "dim_x"]], dask_gufunc_kwargs={"output_sizes": {"dim_basis": self.N_basis_elt, "dim_x": self.dim_x}}, dask="parallelized"), xva["v"], dims=["dim_x"])
             dE = xr.concat([xva["a"].rename({"dim_x": "dim_basis"}), dbk], dim="dim_basis")  # To test
             return bk, E, dE
         else:
-- 
2.43.0


From db43755d102b46a4661929f02d8e6b2555589f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:47 +0000
Subject: [PATCH 34/42] fix: coloured noise at the ends of a run and for runs
 shorter than the kernel

The filter was cut at the ends of the white noise, so that the first and last points had a smaller
variance and a run shorter than twice the kernel was hardly driven at all.
---
 VolterraBasis/gle_integrate.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/VolterraBasis/gle_integrate.py b/VolterraBasis/gle_integrate.py
index 901ff4d..2305755 100644
--- a/VolterraBasis/gle_integrate.py
+++ b/VolterraBasis/gle_integrate.py
@@ -56,11 +56,11 @@ class ColoredNoiseGenerator:
             self.sqk[:, d, d] = ift(sqk_ft, w, t_sym).real
 
     def generate(self, size):
-        colored_noise = np.empty((max(size, self.sqk.shape[0]), self.dim))
+        colored_noise = np.empty((size, self.dim))
         for d in range(self.dim):
-            white_noise = self.rng(size=size)
-            colored_noise[:, d] = np.convolve(white_noise, self.sqk[:, d, d], mode="same")
-        return colored_noise[:size] * np.sqrt(self.dt)
+            white_noise = self.rng(size=size + self.sqk.shape[0] - 1)  # The filter has to be full at every point
+            colored_noise[:, d] = np.convolve(white_noise, self.sqk[:, d, d], mode="valid")
+        return colored_noise * np.sqrt(self.dt)
 
 
 class KarhunenLoeveNoiseGenerator:
-- 
2.43.0


From e581a248e390d47b2ca5cc3e008c446e98794aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:23 +0000
Subject: [PATCH 35/42] fix: evaluation of the kernel of a model loaded from a
 netCDF file

The dimensions stored as attributes of a netCDF file come back as numpy
integers, which expand_dims refuses: kernel_eval of the position only, hybrid
and overdamped models then raised a TypeError.
---
 VolterraBasis/models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/VolterraBasis/models.py b/VolterraBasis/models.py
index bcb7fb4..2e27cd0 100644
--- a/VolterraBasis/models.py
+++ b/VolterraBasis/models.py
@@ -53,8 +53,8 @@ class ModelBase(object):
         """
         self.L_obs = L_obs
 
-        self.dim_x = dim_x
-        self.dim_obs = dim_obs
+        self.dim_x = int(dim_x)
+        self.dim_obs = int(dim_obs)
 
         self.dt = dt
         self.trunc_ind = int(trunc_ind)
-- 
2.43.0


From 72f7a54b95701acd11af919d3c9412a0b526999e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:08 +0000
Subject: [PATCH 36/42] fix: position dependent effective mass

The products of velocities were projected on the gradients of the basis and
summed over their components, while the evaluation multiplies the
coefficients with the basis functions and expects one matrix per function:
inv_mass_eval and pmf_num_int_eval failed for every model, or gave the wrong
mass with a linear basis.
---
 VolterraBasis/gle_estimation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/VolterraBasis/gle_estimation.py b/VolterraBasis/gle_estimation.py
index 853d245..a2fb7d5 100644
--- a/VolterraBasis/gle_estimation.py
+++ b/VolterraBasis/gle_estimation.py
@@ -14,7 +14,7 @@ def solve_linear(G, b):  # Write also a sparse version
     """
     Solve the linear problem Gx = b
     """
-    x_np = np.linalg.inv(G.values) @ b.values
+    x_np = np.tensordot(np.linalg.inv(G.values), b.values, axes=1)
     return xr.DataArray(x_np, dims=b.dims)
 
 
@@ -428,8 +428,8 @@ class Estimator_gle(object):
         """
         Do the needed scalar product for one traj
         """
-        E = model.basis_vector(xva, compute_for="kernel")
-        avg_disp = xr.dot(E, xva["v"], xva["v"].rename({"dim_x": "dim_x'"})) / weight
+        E = model.basis_vector(xva, compute_for="force")
+        avg_disp = xr.dot(E, xva["v"], xva["v"].rename({"dim_x": "dim_x'"}), dims=["time"]) / weight
         avg_gram = xr.dot(E, E.rename({"dim_basis": "dim_basis'"})) / weight
         return avg_disp, avg_gram
 
-- 
2.43.0


From cd234bc96f4986a2bf8b8e7cfceaa710e4b416cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:54 +0000
Subject: [PATCH 37/42] fix: a refused computation of the kernel keeps the
 method of the existing one

compute_kernel with an unknown method, or with correlations that do not allow
the method, raised after overwriting model.method: the noise of the existing
kernel was then computed with the wrong quadrature, or refused.
---
 VolterraBasis/gle_estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/gle_estimation.py b/VolterraBasis/gle_estimation.py
index a2fb7d5..ef980bd 100644
--- a/VolterraBasis/gle_estimation.py
+++ b/VolterraBasis/gle_estimation.py
@@ -314,7 +314,6 @@ class Estimator_gle(object):
             print("Compute memory kernel using {} method".format(method))
         time = np.arange(self.model.trunc_ind) * self.dt
         time_ker = time - time[0]  # Set zero time
-        self.model.method = method  # Save used method
         if self.verbose:
             print("Use dt:", self.dt)
         if k0 is None and method in ["trapz", "second_kind_rect", "second_kind_trapz"]:  # Then we should compute initial value from time derivative at zero
@@ -351,6 +350,7 @@ class Estimator_gle(object):
         else:
             raise Exception("Method for volterra inversion is not in  {rectangular, midpoint, midpoint_w_richardson,trapz,second_kind_rect,second_kind_trapz}")
 
+        self.model.method = method  # Save used method
         self.model.kernel = xr.DataArray(kernel, dims=("time_kernel", "dim_basis", self.bkdxcorrw.dims[1]), coords={"time_kernel": time_ker})
         if self.saveall:  # TODO: change to xarray save
             xr.Dataset({"kernel": self.model.kernel}).to_netcdf(self.kernelfile)
-- 
2.43.0


From f33da2da082fb45baaba3d13bb45afffaa329d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:54 +0000
Subject: [PATCH 38/42] fix: compute_gram_kernel before compute_corrs when the
 basis is projected

It raised an AttributeError after storing the matrix that is not projected.
---
 VolterraBasis/gle_estimation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/VolterraBasis/gle_estimation.py b/VolterraBasis/gle_estimation.py
index ef980bd..3c4cbc1 100644
--- a/VolterraBasis/gle_estimation.py
+++ b/VolterraBasis/gle_estimation.py
@@ -212,6 +212,8 @@ class Estimator_gle(object):
         """
         if self.verbose:
             print("Calculate kernel gram...")
+        if self.model.rank_projection and self.model.P_range is None:
+            raise Exception("Need correlation functions to project the kernel part of the basis.")
         self.model.gram_kernel = self.loop_over_trajs(self._compute_gram, self.model, gram_type="kernel")[0]
         if self.model.rank_projection:
             P_range = self.model.P_range.to_numpy()
-- 
2.43.0


From d740adf08f3f05093420f938f3cf13383eb2ca58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:27 +0000
Subject: [PATCH 39/42] fix: Prony fit of alternating series

---
 VolterraBasis/fit_prony.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/fit_prony.py b/VolterraBasis/fit_prony.py
index 8dd6402..da058da 100644
--- a/VolterraBasis/fit_prony.py
+++ b/VolterraBasis/fit_prony.py
@@ -105,7 +105,7 @@ def clean_eigenvalues(J, dt, remove=True, debug=False):
     # We need to duplicate real eigenvalue with negative value
     dupl = np.logical_and(np.abs(np.imag(lamb)) < 1e-15, np.real(lamb < 0))
     n_dupl = len(lamb[dupl])
-    log_lamp = np.log(lamb) / dt
+    log_lamp = np.log(lamb.astype(complex)) / dt
     # add eigenvector
     new_vect = np.zeros((len(lamb) + n_dupl, len(lamb) + n_dupl), dtype=complex)
     new_vect[: len(lamb), : len(lamb)] = vect
-- 
2.43.0


From 5507781ef1e725da4e89381815f75ae5367a50c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:28 +0000
Subject: [PATCH 40/42] fix: points on a face shared by elements are attributed
 to one of them

Rounding can put such a point outside of the elements on both sides of the face,
and it was then attributed to the first element of the mesh.
---
 VolterraBasis/basis/_fem_features.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/VolterraBasis/basis/_fem_features.py b/VolterraBasis/basis/_fem_features.py
index ec03749..8309ae0 100644
--- a/VolterraBasis/basis/_fem_features.py
+++ b/VolterraBasis/basis/_fem_features.py
@@ -54,9 +54,10 @@ class ElementFinder:
             i_e = tree_query[n, :]
             X_loc = self.mapping.invF((point.T)[:, None, None], tind=i_e)
             inside = self.inside(X_loc)
-            if not np.any(inside):  # The element is not among the nearest ones
+            if not np.any(inside):  # The element is not among the nearest ones, or the point is on a face and rounding puts it outside of both sides
                 i_e = np.arange(n_elem)
-                inside = self.inside(self.mapping.invF((point.T)[:, None, None], tind=i_e))
+                X_loc = self.mapping.invF((point.T)[:, None, None], tind=i_e)
+                inside = np.minimum(X_loc.min(axis=0), 1 - X_loc.sum(axis=0))  # Smallest barycentric coordinate
             element_inds[n] = i_e[np.argmax(inside, axis=0)]
         return element_inds
 
-- 
2.43.0


From b28ad1bc641dd262f4a539d29cb725f294ab8205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:40 +0000
Subject: [PATCH 41/42] fix: derivative of a given spline beyond its degree is
 zero instead of an exception

---
 VolterraBasis/basis/_basis_features.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/VolterraBasis/basis/_basis_features.py b/VolterraBasis/basis/_basis_features.py
index 9115ce7..da321ce 100644
--- a/VolterraBasis/basis/_basis_features.py
+++ b/VolterraBasis/basis/_basis_features.py
@@ -217,6 +217,8 @@ class SplineFctFeatures(TransformerMixin):
     def deriv(self, X, deriv_order=1):
         nsamples, dim = X.shape
         grad = np.zeros((nsamples, dim) + (dim,) * deriv_order)
+        if self.k < deriv_order:
+            return grad
         for i in range(dim):
             grad[(Ellipsis, slice(i, i + 1)) + (i,) * (deriv_order)] = self.spl_.derivative(deriv_order)(X[:, slice(i, i + 1)])
         return grad
-- 
2.43.0


From 0d8548ada61936c68b8c19c47645910645e7c322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:01 +0000
Subject: [PATCH 42/42] fix: pooled description has the variance, skewness and
 kurtosis of all the data instead of those of the first block

---
 VolterraBasis/basis/_data_describe.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/VolterraBasis/basis/_data_describe.py b/VolterraBasis/basis/_data_describe.py
index bbfc058..d0cd67b 100644
--- a/VolterraBasis/basis/_data_describe.py
+++ b/VolterraBasis/basis/_data_describe.py
@@ -28,7 +28,24 @@ def describe_from_dim(dim):
 
 
 def sum_describe(d1, d2):
-    return DescribeResult(d1.nobs + d2.nobs, (np.minimum(d1.minmax[0], d2.minmax[0]), np.maximum(d1.minmax[1], d2.minmax[1])), (d1.mean * d1.nobs + d2.mean * d2.nobs) / (d1.nobs + d2.nobs), d1.variance, d1.skewness, d1.kurtosis)
+    """
+    Description of the union of two sets of data, from their descriptions
+    """
+    nobs = d1.nobs + d2.nobs
+    mean = (d1.mean * d1.nobs + d2.mean * d2.nobs) / nobs
+    m2, m3, m4 = 0.0, 0.0, 0.0  # Central moments of the union
+    for d in (d1, d2):
+        delta = d.mean - mean
+        # Central moments of each part, that vanish for constant data
+        s2 = np.nan_to_num(d.variance) * (d.nobs - 1) / d.nobs
+        s3 = np.nan_to_num(d.skewness) * s2**1.5
+        s4 = (np.nan_to_num(d.kurtosis) + 3) * s2**2
+        m2 = m2 + d.nobs / nobs * (s2 + delta**2)
+        m3 = m3 + d.nobs / nobs * (s3 + 3 * delta * s2 + delta**3)
+        m4 = m4 + d.nobs / nobs * (s4 + 4 * delta * s3 + 6 * delta**2 * s2 + delta**4)
+    with np.errstate(divide="ignore", invalid="ignore"):
+        skewness, kurtosis = m3 / m2**1.5, m4 / m2**2 - 3
+    return DescribeResult(nobs, (np.minimum(d1.minmax[0], d2.minmax[0]), np.maximum(d1.minmax[1], d2.minmax[1])), mean, m2 * nobs / (nobs - 1), skewness, kurtosis)
 
 
 # Il faudrait faire un calcul de descripteurs avec accumulation sur les trajs ?
-- 
2.43.0

