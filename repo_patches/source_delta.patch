From b5c9dfe661815bb78765a3931f7a301e4c74bd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:48 +0000
Subject: [PATCH 01/86] fix: penalise only off-diagonal entries in the ADMM
 solvers, as their documented objective states

---
 regain/covariance/infimal_convolution_.py                | 4 ++--
 regain/covariance/kernel_latent_time_graphical_lasso_.py | 4 ++--
 regain/covariance/kernel_time_graphical_lasso_.py        | 4 ++--
 regain/covariance/latent_graphical_lasso_.py             | 4 ++--
 regain/covariance/latent_time_graphical_lasso_.py        | 4 ++--
 regain/covariance/latent_time_matrix_decomposition.py    | 4 ++--
 regain/covariance/time_graphical_lasso_.py               | 4 ++--
 7 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/regain/covariance/infimal_convolution_.py b/regain/covariance/infimal_convolution_.py
index 63df391..0a51578 100644
--- a/regain/covariance/infimal_convolution_.py
+++ b/regain/covariance/infimal_convolution_.py
@@ -38,7 +38,7 @@ from six.moves import range
 from sklearn.utils.extmath import squared_norm
 
 from regain.norm import l1_od_norm
-from regain.prox import prox_laplacian, prox_trace_indicator, soft_thresholding
+from regain.prox import prox_laplacian, prox_trace_indicator, soft_thresholding_off_diagonal
 from regain.update_rules import update_rho
 from regain.utils import Convergence
 
@@ -122,7 +122,7 @@ def infimal_convolution(
         R = prox_laplacian(S + rho * A, lamda=rho / 2.0)
 
         A = L + R + U
-        K = soft_thresholding(A, lamda=alpha / rho)
+        K = soft_thresholding_off_diagonal(A, lamda=alpha / rho)
 
         A = K - R - U
         A += A.T
diff --git a/regain/covariance/kernel_latent_time_graphical_lasso_.py b/regain/covariance/kernel_latent_time_graphical_lasso_.py
index c15f569..5f83b47 100644
--- a/regain/covariance/kernel_latent_time_graphical_lasso_.py
+++ b/regain/covariance/kernel_latent_time_graphical_lasso_.py
@@ -47,7 +47,7 @@ from regain.covariance.kernel_time_graphical_lasso_ import (
     objective as obj_ktgl,
     precision_similarity,
 )
-from regain.prox import prox_logdet, prox_trace_indicator, soft_thresholding
+from regain.prox import prox_logdet, prox_trace_indicator, soft_thresholding_off_diagonal
 from regain.update_rules import update_rho
 from regain.utils import Convergence
 from regain.validation import check_norm_prox
@@ -198,7 +198,7 @@ def kernel_latent_time_graphical_lasso(
             A[m:] += Z_M[m][1] - Y_M[m][1]
 
         A /= n_times
-        Z_0 = soft_thresholding(A, lamda=alpha / (rho * n_times))
+        Z_0 = soft_thresholding_off_diagonal(A, lamda=alpha / (rho * n_times))
 
         # update W_0
         A = Z_0 - R - X_0
diff --git a/regain/covariance/kernel_time_graphical_lasso_.py b/regain/covariance/kernel_time_graphical_lasso_.py
index 9635e3e..7498483 100644
--- a/regain/covariance/kernel_time_graphical_lasso_.py
+++ b/regain/covariance/kernel_time_graphical_lasso_.py
@@ -48,7 +48,7 @@ from regain.covariance.time_graphical_lasso_ import (
     loss,
 )
 from regain.norm import l1_od_norm
-from regain.prox import prox_logdet, soft_thresholding
+from regain.prox import prox_logdet, soft_thresholding_off_diagonal
 from regain.update_rules import update_rho
 from regain.utils import Convergence
 from regain.validation import check_norm_prox
@@ -190,7 +190,7 @@ def kernel_time_graphical_lasso(
         A = K + U_0
         A += A.transpose(0, 2, 1)
         A /= 2.0
-        Z_0 = soft_thresholding(A, lamda=alpha / rho)
+        Z_0 = soft_thresholding_off_diagonal(A, lamda=alpha / rho)
 
         # update residuals
         U_0 += K - Z_0
diff --git a/regain/covariance/latent_graphical_lasso_.py b/regain/covariance/latent_graphical_lasso_.py
index e33d0ae..a2178c2 100644
--- a/regain/covariance/latent_graphical_lasso_.py
+++ b/regain/covariance/latent_graphical_lasso_.py
@@ -40,7 +40,7 @@ from regain.covariance.graphical_lasso_ import (
     init_precision,
     objective as obj_gl,
 )
-from regain.prox import prox_logdet, prox_trace_indicator, soft_thresholding
+from regain.prox import prox_logdet, prox_trace_indicator, soft_thresholding_off_diagonal
 from regain.update_rules import update_rho
 from regain.utils import Convergence
 
@@ -132,7 +132,7 @@ def latent_graphical_lasso(
         R = prox_logdet(emp_cov - rho * A, lamda=1.0 / rho)
 
         A = L + R + U
-        K = soft_thresholding(A, lamda=alpha / rho)
+        K = soft_thresholding_off_diagonal(A, lamda=alpha / rho)
 
         A = K - R - U
         A += A.T
diff --git a/regain/covariance/latent_time_graphical_lasso_.py b/regain/covariance/latent_time_graphical_lasso_.py
index a8a6658..e454333 100644
--- a/regain/covariance/latent_time_graphical_lasso_.py
+++ b/regain/covariance/latent_time_graphical_lasso_.py
@@ -39,7 +39,7 @@ from regain.covariance.time_graphical_lasso_ import (
     init_precision,
     objective as obj_tgl,
 )
-from regain.prox import prox_logdet, prox_trace_indicator, soft_thresholding
+from regain.prox import prox_logdet, prox_trace_indicator, soft_thresholding_off_diagonal
 from regain.update_rules import update_rho
 from regain.utils import Convergence
 from regain.validation import check_norm_prox
@@ -184,7 +184,7 @@ def latent_time_graphical_lasso(
         A[:-1] += Z_1 - X_1
         A[1:] += Z_2 - X_2
         A /= divisor[:, None, None]
-        Z_0 = soft_thresholding(A, lamda=alpha / (rho * divisor[:, None, None]))
+        Z_0 = soft_thresholding_off_diagonal(A, lamda=alpha / (rho * divisor[:, None, None]))
 
         # update Z_1, Z_2
         A_1 = Z_0[:-1] + X_1
diff --git a/regain/covariance/latent_time_matrix_decomposition.py b/regain/covariance/latent_time_matrix_decomposition.py
index c668df6..ff2dfa5 100644
--- a/regain/covariance/latent_time_matrix_decomposition.py
+++ b/regain/covariance/latent_time_matrix_decomposition.py
@@ -38,7 +38,7 @@ from sklearn.utils.extmath import squared_norm
 
 from regain.covariance.latent_time_graphical_lasso_ import LatentTimeGraphicalLasso
 from regain.norm import l1_od_norm
-from regain.prox import prox_trace_indicator, soft_thresholding
+from regain.prox import prox_trace_indicator, soft_thresholding_off_diagonal
 from regain.update_rules import update_rho
 from regain.utils import Convergence
 from regain.validation import check_input, check_norm_prox
@@ -151,7 +151,7 @@ def latent_time_matrix_decomposition(
         A /= divisor[:, None, None]
         # soft_thresholding_ = partial(soft_thresholding, lamda=alpha / rho)
         # Z_0 = np.array(map(soft_thresholding_, A))
-        Z_0 = soft_thresholding(A, lamda=alpha / (rho * divisor[:, None, None]))
+        Z_0 = soft_thresholding_off_diagonal(A, lamda=alpha / (rho * divisor[:, None, None]))
 
         # update Z_1, Z_2
         A_1 = Z_0[:-1] + X_1
diff --git a/regain/covariance/time_graphical_lasso_.py b/regain/covariance/time_graphical_lasso_.py
index f5c3356..23010b1 100644
--- a/regain/covariance/time_graphical_lasso_.py
+++ b/regain/covariance/time_graphical_lasso_.py
@@ -45,7 +45,7 @@ from sklearn.utils.validation import check_X_y
 from regain.covariance.graphical_lasso_ import GraphicalLasso, init_precision
 from regain.math import batch_logdet
 from regain.norm import l1_od_norm
-from regain.prox import prox_logdet, soft_thresholding
+from regain.prox import prox_logdet, soft_thresholding_off_diagonal
 from regain.update_rules import update_rho
 from regain.utils import Convergence, error_norm_time
 from regain.validation import check_norm_prox
@@ -201,7 +201,7 @@ def time_graphical_lasso(
         A = K + U_0
         A += A.transpose(0, 2, 1)
         A /= 2.0
-        Z_0 = soft_thresholding(A, lamda=alpha / rho)
+        Z_0 = soft_thresholding_off_diagonal(A, lamda=alpha / rho)
 
         # other Zs
         A_1 = K[:-1] + U_1
-- 
2.43.0


From 6902246a38ebb6f2f7745f3dc73054079f23216b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:48 +0000
Subject: [PATCH 02/86] fix: over-relaxation step of graphical_lasso mixes K
 and Z with the right sign

---
 regain/covariance/graphical_lasso_.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/covariance/graphical_lasso_.py b/regain/covariance/graphical_lasso_.py
index bbabca1..2c99786 100644
--- a/regain/covariance/graphical_lasso_.py
+++ b/regain/covariance/graphical_lasso_.py
@@ -159,7 +159,7 @@ def graphical_lasso(
         K = prox_logdet(emp_cov - rho * A, lamda=1.0 / rho)
 
         # z-update with relaxation
-        K_hat = over_relax * K - (1 - over_relax) * Z
+        K_hat = over_relax * K + (1 - over_relax) * Z
         Z = soft_thresholding_off_diagonal(K_hat + U, lamda=alpha / rho)
 
         # update residuals
-- 
2.43.0


From 5d42162df957649968766196a0912dcee367a571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:48 +0000
Subject: [PATCH 03/86] fix: GraphicalLasso.covariance_ is the estimated
 covariance, not the empirical one

---
 regain/covariance/graphical_lasso_.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/regain/covariance/graphical_lasso_.py b/regain/covariance/graphical_lasso_.py
index 2c99786..ff0f720 100644
--- a/regain/covariance/graphical_lasso_.py
+++ b/regain/covariance/graphical_lasso_.py
@@ -137,7 +137,7 @@ def graphical_lasso(
     precision_ : numpy.array, 2-dimensional
         Solution to the problem.
     covariance_ : np.array, 2 dimensional
-        Empirical covariance matrix.
+        Estimated covariance matrix.
     n_iter_ : int
         If return_n_iter, returns the number of iterations before convergence.
     history_ : list
@@ -195,7 +195,8 @@ def graphical_lasso(
     else:
         warnings.warn("Objective did not converge.")
 
-    return_list = [Z, emp_cov]
+    covariance_ = linalg.pinvh(Z)
+    return_list = [Z, covariance_]
     if return_history:
         return_list.append(checks)
     if return_n_iter:
-- 
2.43.0


From 85b367d2efa9c4fcb68da7579edb48b0f454f2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:48 +0000
Subject: [PATCH 04/86] fix: n_iter_ reports the number of iterations run in
 every solver

---
 regain/covariance/graphical_lasso_.py                    | 2 +-
 regain/covariance/infimal_convolution_.py                | 2 +-
 regain/covariance/kernel_latent_time_graphical_lasso_.py | 2 +-
 regain/covariance/latent_graphical_lasso_.py             | 2 +-
 regain/covariance/latent_time_graphical_lasso_.py        | 2 +-
 regain/covariance/latent_time_matrix_decomposition.py    | 2 +-
 regain/covariance/missing_graphical_lasso_.py            | 2 +-
 7 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/regain/covariance/graphical_lasso_.py b/regain/covariance/graphical_lasso_.py
index ff0f720..a11801b 100644
--- a/regain/covariance/graphical_lasso_.py
+++ b/regain/covariance/graphical_lasso_.py
@@ -200,7 +200,7 @@ def graphical_lasso(
     if return_history:
         return_list.append(checks)
     if return_n_iter:
-        return_list.append(iteration_)
+        return_list.append(iteration_ + 1)
     return return_list
 
 
diff --git a/regain/covariance/infimal_convolution_.py b/regain/covariance/infimal_convolution_.py
index 0a51578..55bb7d2 100644
--- a/regain/covariance/infimal_convolution_.py
+++ b/regain/covariance/infimal_convolution_.py
@@ -168,5 +168,5 @@ def infimal_convolution(
     if return_history:
         return_list.append(checks)
     if return_n_iter:
-        return_list.append(iteration_)
+        return_list.append(iteration_ + 1)
     return return_list
diff --git a/regain/covariance/kernel_latent_time_graphical_lasso_.py b/regain/covariance/kernel_latent_time_graphical_lasso_.py
index 5f83b47..b5d07ea 100644
--- a/regain/covariance/kernel_latent_time_graphical_lasso_.py
+++ b/regain/covariance/kernel_latent_time_graphical_lasso_.py
@@ -388,7 +388,7 @@ def kernel_latent_time_graphical_lasso(
     if return_history:
         return_list.append(checks)
     if return_n_iter:
-        return_list.append(iteration_)
+        return_list.append(iteration_ + 1)
     return return_list
 
 
diff --git a/regain/covariance/latent_graphical_lasso_.py b/regain/covariance/latent_graphical_lasso_.py
index a2178c2..09f3baa 100644
--- a/regain/covariance/latent_graphical_lasso_.py
+++ b/regain/covariance/latent_graphical_lasso_.py
@@ -178,7 +178,7 @@ def latent_graphical_lasso(
     if return_history:
         return_list.append(checks)
     if return_n_iter:
-        return_list.append(iteration_)
+        return_list.append(iteration_ + 1)
     return return_list
 
 
diff --git a/regain/covariance/latent_time_graphical_lasso_.py b/regain/covariance/latent_time_graphical_lasso_.py
index e454333..27a6a8e 100644
--- a/regain/covariance/latent_time_graphical_lasso_.py
+++ b/regain/covariance/latent_time_graphical_lasso_.py
@@ -344,7 +344,7 @@ def latent_time_graphical_lasso(
     if return_history:
         return_list.append(checks)
     if return_n_iter:
-        return_list.append(iteration_)
+        return_list.append(iteration_ + 1)
     return return_list
 
 
diff --git a/regain/covariance/latent_time_matrix_decomposition.py b/regain/covariance/latent_time_matrix_decomposition.py
index ff2dfa5..1e4b69f 100644
--- a/regain/covariance/latent_time_matrix_decomposition.py
+++ b/regain/covariance/latent_time_matrix_decomposition.py
@@ -313,7 +313,7 @@ def latent_time_matrix_decomposition(
     if return_history:
         return_list.append(checks)
     if return_n_iter:
-        return_list.append(iteration_)
+        return_list.append(iteration_ + 1)
     return return_list
 
 
diff --git a/regain/covariance/missing_graphical_lasso_.py b/regain/covariance/missing_graphical_lasso_.py
index 8596170..571e853 100644
--- a/regain/covariance/missing_graphical_lasso_.py
+++ b/regain/covariance/missing_graphical_lasso_.py
@@ -190,7 +190,7 @@ def missing_graphical_lasso(
     if return_history:
         return_list.append(checks)
     if return_n_iter:
-        return_list.append(iter_)
+        return_list.append(iter_ + 1)
     return return_list
 
 
-- 
2.43.0


From 20e65cbf9b74e29b5cdb9867e228b48cc9abaf91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:04 +0000
Subject: [PATCH 05/86] fix: accept the documented ndarray kernels in the
 kernel estimators

---
 regain/covariance/kernel_latent_time_graphical_lasso_.py | 4 ++--
 regain/covariance/kernel_time_graphical_lasso_.py        | 2 +-
 regain/generalized_linear_model/glm_time_ising.py        | 2 +-
 regain/generalized_linear_model/glm_time_poisson.py      | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/regain/covariance/kernel_latent_time_graphical_lasso_.py b/regain/covariance/kernel_latent_time_graphical_lasso_.py
index b5d07ea..452a87f 100644
--- a/regain/covariance/kernel_latent_time_graphical_lasso_.py
+++ b/regain/covariance/kernel_latent_time_graphical_lasso_.py
@@ -533,7 +533,7 @@ class KernelLatentTimeGraphicalLasso(KernelTimeGraphicalLasso):
                 )
 
         else:
-            kernel_phi = self.kernel_phi or np.identity(self.classes_.size)
+            kernel_phi = np.identity(self.classes_.size) if self.kernel_phi is None else self.kernel_phi
             if kernel_phi.shape[0] != self.classes_.size:
                 raise ValueError(
                     "kernel_phi size does not match classes of samples, "
@@ -553,7 +553,7 @@ class KernelLatentTimeGraphicalLasso(KernelTimeGraphicalLasso):
                     self.classes_[:, None]
                 )
         else:
-            kernel_psi = self.kernel_psi or np.identity(self.classes_.size)
+            kernel_psi = np.identity(self.classes_.size) if self.kernel_psi is None else self.kernel_psi
             if kernel_psi.shape[0] != self.classes_.size:
                 raise ValueError(
                     "kernel_psi size does not match classes of samples, "
diff --git a/regain/covariance/kernel_time_graphical_lasso_.py b/regain/covariance/kernel_time_graphical_lasso_.py
index 7498483..f2be527 100644
--- a/regain/covariance/kernel_time_graphical_lasso_.py
+++ b/regain/covariance/kernel_time_graphical_lasso_.py
@@ -544,7 +544,7 @@ class KernelTimeGraphicalLasso(TimeGraphicalLasso):
                         self.classes_[:, None]
                     )
             else:
-                kernel = self.kernel or np.identity(self.classes_.size)
+                kernel = np.identity(self.classes_.size) if self.kernel is None else self.kernel
                 if kernel.shape[0] != self.classes_.size:
                     raise ValueError(
                         "Kernel size does not match classes of samples, "
diff --git a/regain/generalized_linear_model/glm_time_ising.py b/regain/generalized_linear_model/glm_time_ising.py
index e9c3e97..e61b7af 100644
--- a/regain/generalized_linear_model/glm_time_ising.py
+++ b/regain/generalized_linear_model/glm_time_ising.py
@@ -502,7 +502,7 @@ class TemporalIsingModel(BaseEstimator):
                         self.classes_[:, None]
                     )
             else:
-                kernel = self.kernel or np.identity(self.classes_.size)
+                kernel = np.identity(self.classes_.size) if self.kernel is None else self.kernel
                 if kernel.shape[0] != self.classes_.size:
                     raise ValueError(
                         "Kernel size does not match classes of samples, "
diff --git a/regain/generalized_linear_model/glm_time_poisson.py b/regain/generalized_linear_model/glm_time_poisson.py
index b7fefea..9ea541d 100644
--- a/regain/generalized_linear_model/glm_time_poisson.py
+++ b/regain/generalized_linear_model/glm_time_poisson.py
@@ -497,7 +497,7 @@ class TemporalPoissonModel(BaseEstimator):
                         self.classes_[:, None]
                     )
             else:
-                kernel = self.kernel or np.identity(self.classes_.size)
+                kernel = np.identity(self.classes_.size) if self.kernel is None else self.kernel
                 if kernel.shape[0] != self.classes_.size:
                     raise ValueError(
                         "Kernel size does not match classes of samples, "
-- 
2.43.0


From d9507721bb94c63341f4cc35c4da3f083b785fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:04 +0000
Subject: [PATCH 06/86] fix: kernel latent estimators honour the phi parameter

---
 regain/covariance/kernel_latent_time_graphical_lasso_.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/regain/covariance/kernel_latent_time_graphical_lasso_.py b/regain/covariance/kernel_latent_time_graphical_lasso_.py
index 452a87f..348bbde 100644
--- a/regain/covariance/kernel_latent_time_graphical_lasso_.py
+++ b/regain/covariance/kernel_latent_time_graphical_lasso_.py
@@ -573,6 +573,7 @@ class KernelLatentTimeGraphicalLasso(KernelTimeGraphicalLasso):
             tol=self.tol,
             rtol=self.rtol,
             psi=self.psi,
+            phi=self.phi,
             max_iter=self.max_iter,
             verbose=self.verbose,
             return_n_iter=True,
@@ -790,6 +791,7 @@ class SimilarityLatentTimeGraphicalLasso(KernelLatentTimeGraphicalLasso):
                     tol=self.tol,
                     rtol=self.rtol,
                     psi=self.psi,
+                    phi=self.phi,
                     max_iter=self.max_iter,
                     verbose=self.verbose,
                     return_n_iter=True,
@@ -873,6 +875,7 @@ class SimilarityLatentTimeGraphicalLasso(KernelLatentTimeGraphicalLasso):
                 tol=self.tol,
                 rtol=self.rtol,
                 psi=self.psi,
+                phi=self.phi,
                 max_iter=self.max_iter,
                 verbose=self.verbose,
                 return_n_iter=True,
-- 
2.43.0


From 3e5602d3fb6b5e972d72230e790aa709f5c6d96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:25 +0000
Subject: [PATCH 07/86] fix: SimilarityLatentTimeGraphicalLasso uses eta and
 treats a missing kernel_phi as identity

---
 regain/covariance/kernel_latent_time_graphical_lasso_.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/regain/covariance/kernel_latent_time_graphical_lasso_.py b/regain/covariance/kernel_latent_time_graphical_lasso_.py
index 348bbde..0a56333 100644
--- a/regain/covariance/kernel_latent_time_graphical_lasso_.py
+++ b/regain/covariance/kernel_latent_time_graphical_lasso_.py
@@ -742,6 +742,8 @@ class SimilarityLatentTimeGraphicalLasso(KernelLatentTimeGraphicalLasso):
                 kernel_phi = np.eye(n_times)
                 np.fill_diagonal(kernel_phi[:, 1:], self.eta)
                 np.fill_diagonal(kernel_phi[1:], self.eta)
+            else:
+                kernel_phi = self.kernel_phi
 
             # discover best kernel parameter via EM
             # initialise precision matrices, as warm start
@@ -785,7 +787,7 @@ class SimilarityLatentTimeGraphicalLasso(KernelLatentTimeGraphicalLasso):
                     alpha=self.alpha,
                     tau=self.tau,
                     rho=self.rho,
-                    kernel_phi=self.kernel_phi,
+                    kernel_phi=kernel_phi,
                     kernel_psi=kernel_psi,
                     n_samples=n_samples,
                     tol=self.tol,
@@ -835,7 +837,7 @@ class SimilarityLatentTimeGraphicalLasso(KernelLatentTimeGraphicalLasso):
                     )
 
             else:
-                kernel_phi = self.kernel_phi
+                kernel_phi = np.identity(self.classes_.size) if self.kernel_phi is None else self.kernel_phi
                 if kernel_phi.shape[0] != self.classes_.size:
                     raise ValueError(
                         "kernel_phi size does not match classes of samples, "
-- 
2.43.0


From 74f645097923b26ee969affea70cf739cd5ddd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:28 +0000
Subject: [PATCH 08/86] fix: block soft-thresholding keeps zero vectors at zero
 instead of returning NaN

---
 regain/prox.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/regain/prox.py b/regain/prox.py
index 9e1e132..2fc0cba 100644
--- a/regain/prox.py
+++ b/regain/prox.py
@@ -60,7 +60,10 @@ def soft_thresholding_off_diagonal(a, lamda):
 
 def soft_thresholding_vector(a, lamda):
     """Soft-thresholding for vectors."""
-    return np.maximum(1 - lamda / np.linalg.norm(a, axis=-1, keepdims=True), 0) * a
+    norms = np.linalg.norm(a, axis=-1, keepdims=True)
+    # a zero vector is a fixed point: avoid dividing by its norm
+    safe_norms = np.where(norms > 0, norms, 1)
+    return np.where(norms > 0, np.maximum(1 - lamda / safe_norms, 0), 0) * a
 
 
 def blockwise_soft_thresholding(a, lamda):
@@ -72,8 +75,10 @@ def blockwise_soft_thresholding(a, lamda):
 def blockwise_soft_thresholding_symmetric(a, lamda):
     """Proximal operator for l2 norm, for symmetric matrices (last 2 axes)."""
     col_norms = np.linalg.norm(a, axis=-2)
+    # a zero column is a fixed point: avoid dividing by its norm
+    safe_norms = np.where(col_norms > 0, col_norms, 1)
     out = np.matmul(
-        a, create_from_diagonal((1 - lamda / col_norms) * (col_norms > lamda))
+        a, create_from_diagonal((1 - lamda / safe_norms) * (col_norms > lamda))
     )
     return out
 
-- 
2.43.0


From 3efa7536cd7bf82e5d6ace14f8f470d27d977231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:49 +0000
Subject: [PATCH 09/86] fix: exact l-infinity prox, also for one threshold per
 time as the kernel solvers pass

---
 regain/prox.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/regain/prox.py b/regain/prox.py
index 2fc0cba..aa52408 100644
--- a/regain/prox.py
+++ b/regain/prox.py
@@ -88,7 +88,7 @@ def prox_linf_1d(a, lamda):
 
     min ||x||_inf + (1/2t)||x-w||^2
 
-    Since there is no closed-form, we can minimize it with scipy.
+    Computed in closed form, as in the Matlab reference.
 
     Matlab reference
     ------
@@ -113,19 +113,19 @@ def prox_linf_1d(a, lamda):
         end
     end
     """
-    from scipy.optimize import minimize
-
-    def f(x):
-        return lamda * np.linalg.norm(x, np.inf) + 0.5 * squared_norm(a - x)
-
-    return minimize(f, a).x
+    abs_a = np.abs(a)
+    thresholds = (np.cumsum(np.sort(abs_a)[::-1]) - lamda) / np.arange(1, a.size + 1)
+    return np.minimum(abs_a, max(np.max(thresholds), 0)) * np.sign(a)
 
 
 def prox_linf(a, lamda):
     """Proximal operator for l-inf norm."""
     x = np.zeros_like(a)
+    lamdas = np.broadcast_to(np.ravel(lamda), (a.shape[0],))
     for t in range(a.shape[0]):
-        x[t] = np.array([prox_linf_1d(a[t, :, j], lamda) for j in range(a.shape[1])]).T
+        x[t] = np.array(
+            [prox_linf_1d(a[t, :, j], lamdas[t]) for j in range(a.shape[1])]
+        ).T
     return x
 
 
-- 
2.43.0


From ddeed6071eeda48345c523f7f857ee63ac8e464a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:52 +0000
Subject: [PATCH 10/86] fix: the l2 and linf temporal norms match the
 column-wise proximal operators paired with them

---
 regain/norm.py       | 5 +++++
 regain/validation.py | 6 +++---
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/regain/norm.py b/regain/norm.py
index 1ec5742..6d5fc96 100644
--- a/regain/norm.py
+++ b/regain/norm.py
@@ -55,6 +55,11 @@ def l1_od_norm(precision):
     return matrix_l1_norm(precision) - diagonal_sum
 
 
+def column_norm(matrix, p=2):
+    """Sum of the p-norms of the columns of a matrix."""
+    return np.linalg.norm(matrix, axis=0, ord=p).sum()
+
+
 def node_penalty(X):
     """Node penalty. See Hallac for details."""
     cons = (
diff --git a/regain/validation.py b/regain/validation.py
index 743836e..a8a4c40 100644
--- a/regain/validation.py
+++ b/regain/validation.py
@@ -37,7 +37,7 @@ import scipy.sparse as sp
 from sklearn.utils.extmath import squared_norm
 from sklearn.utils.validation import check_array
 
-from regain.norm import l1_norm, node_penalty
+from regain.norm import column_norm, l1_norm, node_penalty
 from regain.prox import blockwise_soft_thresholding, prox_laplacian, prox_linf, prox_node_penalty, soft_thresholding
 
 
@@ -51,10 +51,10 @@ def check_norm_prox(function):
         norm = l1_norm
     elif function == "l2":
         prox = blockwise_soft_thresholding
-        norm = np.linalg.norm
+        norm = column_norm
     elif function == "linf":
         prox = prox_linf
-        norm = partial(np.linalg.norm, ord=np.inf)
+        norm = partial(column_norm, p=np.inf)
     elif function == "node":
         prox = prox_node_penalty
         norm = node_penalty
-- 
2.43.0


From 9f26bd9369ab7fc03889910fe2db6a0b45c83e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:53 +0000
Subject: [PATCH 11/86] fix: accept the documented ndarray init in the
 covariance solvers

---
 regain/covariance/graphical_lasso_.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/regain/covariance/graphical_lasso_.py b/regain/covariance/graphical_lasso_.py
index a11801b..870ce8d 100644
--- a/regain/covariance/graphical_lasso_.py
+++ b/regain/covariance/graphical_lasso_.py
@@ -58,7 +58,9 @@ def objective(emp_cov, x, z, alpha):
 
 def init_precision(emp_cov, mode="empirical"):
     """Initialize the precision matrix given the empirical covariance."""
-    if mode == "empirical":
+    if isinstance(mode, np.ndarray):
+        K = mode
+    elif mode == "empirical":
         covariance_ = emp_cov.copy()
         covariance_ *= 0.95
         n_features = emp_cov.shape[-1]
@@ -70,8 +72,6 @@ def init_precision(emp_cov, mode="empirical"):
             for i, (c, e) in enumerate(zip(covariance_, emp_cov)):
                 c.flat[:: n_features + 1] = e.flat[:: n_features + 1]
                 K[i] = linalg.pinvh(c)
-    elif isinstance(mode, np.ndarray):
-        K = mode
     else:
         K = np.zeros_like(emp_cov)
 
-- 
2.43.0


From ee553b0d3910f6f6c2bd8a920eabebb76f6b711f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:49 +0000
Subject: [PATCH 12/86] fix: latent solvers do not declare convergence while
 the latent part still moves

---
 regain/covariance/infimal_convolution_.py                | 4 +++-
 regain/covariance/kernel_latent_time_graphical_lasso_.py | 3 +++
 regain/covariance/latent_graphical_lasso_.py             | 4 +++-
 regain/covariance/latent_time_graphical_lasso_.py        | 3 +++
 regain/covariance/latent_time_matrix_decomposition.py    | 3 +++
 5 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/regain/covariance/infimal_convolution_.py b/regain/covariance/infimal_convolution_.py
index 55bb7d2..6293812 100644
--- a/regain/covariance/infimal_convolution_.py
+++ b/regain/covariance/infimal_convolution_.py
@@ -112,6 +112,7 @@ def infimal_convolution(
     L = np.zeros_like(S)
     U = np.zeros_like(S)
     R_old = np.zeros_like(S)
+    L_old = np.zeros_like(L)
 
     checks = []
     for iteration_ in range(max_iter):
@@ -135,7 +136,7 @@ def infimal_convolution(
         # diagnostics, reporting, termination checks
         obj = objective(S, R, K, L, alpha, tau) if compute_objective else np.nan
         rnorm = np.linalg.norm(R - K + L)
-        snorm = rho * np.linalg.norm(R - R_old)
+        snorm = rho * np.sqrt(np.sum((R - R_old) ** 2) + np.sum((L - L_old) ** 2))
         check = Convergence(
             obj=obj,
             rnorm=rnorm,
@@ -145,6 +146,7 @@ def infimal_convolution(
             e_dual=np.sqrt(R.size) * tol + rtol * rho * np.linalg.norm(U),
         )
         R_old = R.copy()
+        L_old = L.copy()
 
         if verbose:
             print(check)
diff --git a/regain/covariance/kernel_latent_time_graphical_lasso_.py b/regain/covariance/kernel_latent_time_graphical_lasso_.py
index 0a56333..e6cdd7f 100644
--- a/regain/covariance/kernel_latent_time_graphical_lasso_.py
+++ b/regain/covariance/kernel_latent_time_graphical_lasso_.py
@@ -145,6 +145,7 @@ def kernel_latent_time_graphical_lasso(
     W_0 = np.zeros_like(Z_0)
     X_0 = np.zeros_like(Z_0)
     R_old = np.zeros_like(Z_0)
+    W_0_old = np.zeros_like(W_0)
 
     Z_M, Z_M_old = {}, {}
     Y_M = {}
@@ -282,6 +283,7 @@ def kernel_latent_time_graphical_lasso(
 
         snorm = rho * np.sqrt(
             squared_norm(R - R_old)
+            + squared_norm(W_0 - W_0_old)
             + sum(
                 squared_norm(Z_M[m][0] - Z_M_old[m][0])
                 + squared_norm(Z_M[m][1] - Z_M_old[m][1])
@@ -355,6 +357,7 @@ def kernel_latent_time_graphical_lasso(
         )
 
         R_old = R.copy()
+        W_0_old = W_0.copy()
         for m in range(1, n_times):
             Z_M_old[m] = (Z_M[m][0].copy(), Z_M[m][1].copy())
             W_M_old[m] = (W_M[m][0].copy(), W_M[m][1].copy())
diff --git a/regain/covariance/latent_graphical_lasso_.py b/regain/covariance/latent_graphical_lasso_.py
index 09f3baa..796ade7 100644
--- a/regain/covariance/latent_graphical_lasso_.py
+++ b/regain/covariance/latent_graphical_lasso_.py
@@ -122,6 +122,7 @@ def latent_graphical_lasso(
     L = np.zeros_like(emp_cov)
     U = np.zeros_like(emp_cov)
     R_old = np.zeros_like(emp_cov)
+    L_old = np.zeros_like(L)
 
     checks = []
     for iteration_ in range(max_iter):
@@ -145,7 +146,7 @@ def latent_graphical_lasso(
         # diagnostics, reporting, termination checks
         obj = objective(emp_cov, R, K, L, alpha, tau) if compute_objective else np.nan
         rnorm = np.linalg.norm(R - K + L)
-        snorm = rho * np.linalg.norm(R - R_old)
+        snorm = rho * np.sqrt(np.sum((R - R_old) ** 2) + np.sum((L - L_old) ** 2))
         check = Convergence(
             obj=obj,
             rnorm=rnorm,
@@ -155,6 +156,7 @@ def latent_graphical_lasso(
             e_dual=np.sqrt(R.size) * tol + rtol * rho * np.linalg.norm(U),
         )
         R_old = R.copy()
+        L_old = L.copy()
 
         if verbose:
             print(check)
diff --git a/regain/covariance/latent_time_graphical_lasso_.py b/regain/covariance/latent_time_graphical_lasso_.py
index 27a6a8e..4510863 100644
--- a/regain/covariance/latent_time_graphical_lasso_.py
+++ b/regain/covariance/latent_time_graphical_lasso_.py
@@ -153,6 +153,7 @@ def latent_time_graphical_lasso(
     U_2 = np.zeros_like(W_2)
 
     R_old = np.zeros_like(Z_0)
+    W_0_old = np.zeros_like(W_0)
     Z_1_old = np.zeros_like(Z_1)
     Z_2_old = np.zeros_like(Z_2)
     W_1_old = np.zeros_like(W_1)
@@ -249,6 +250,7 @@ def latent_time_graphical_lasso(
 
         snorm = rho * np.sqrt(
             squared_norm(R - R_old)
+            + squared_norm(W_0 - W_0_old)
             + squared_norm(Z_1 - Z_1_old)
             + squared_norm(Z_2 - Z_2_old)
             + squared_norm(W_1 - W_1_old)
@@ -314,6 +316,7 @@ def latent_time_graphical_lasso(
         )
 
         R_old = R.copy()
+        W_0_old = W_0.copy()
         Z_1_old = Z_1.copy()
         Z_2_old = Z_2.copy()
         W_1_old = W_1.copy()
diff --git a/regain/covariance/latent_time_matrix_decomposition.py b/regain/covariance/latent_time_matrix_decomposition.py
index 1e4b69f..d5ed8c3 100644
--- a/regain/covariance/latent_time_matrix_decomposition.py
+++ b/regain/covariance/latent_time_matrix_decomposition.py
@@ -128,6 +128,7 @@ def latent_time_matrix_decomposition(
     U_2 = np.zeros_like(W_2)
 
     R_old = np.zeros_like(Z_0)
+    W_0_old = np.zeros_like(W_0)
     Z_1_old = np.zeros_like(Z_1)
     Z_2_old = np.zeros_like(Z_2)
     W_1_old = np.zeros_like(W_1)
@@ -220,6 +221,7 @@ def latent_time_matrix_decomposition(
 
         snorm = rho * np.sqrt(
             squared_norm(R - R_old)
+            + squared_norm(W_0 - W_0_old)
             + squared_norm(Z_1 - Z_1_old)
             + squared_norm(Z_2 - Z_2_old)
             + squared_norm(W_1 - W_1_old)
@@ -284,6 +286,7 @@ def latent_time_matrix_decomposition(
         )
 
         R_old = R.copy()
+        W_0_old = W_0.copy()
         Z_1_old = Z_1.copy()
         Z_2_old = Z_2.copy()
         W_1_old = W_1.copy()
-- 
2.43.0


From 7755eced31123cf9acf571ab3351fbcd6ee6e5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:10 +0000
Subject: [PATCH 13/86] fix: forward-backward lamda line search accepts the
 arguments it is called with

---
 regain/forward_backward/forward_backward.py      | 4 ++--
 regain/forward_backward/time_graphical_lasso_.py | 1 -
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/regain/forward_backward/forward_backward.py b/regain/forward_backward/forward_backward.py
index 09d54a3..a49f369 100644
--- a/regain/forward_backward/forward_backward.py
+++ b/regain/forward_backward/forward_backward.py
@@ -131,7 +131,7 @@ def choose_lamda(
         tolerance = _scalar_product(y_minus_x, grad)
         tolerance += delta / gamma * _scalar_product(y_minus_x, y_minus_x)
     elif criterion == "c":
-        objective_x = objective_f(x)
+        objective_x = objective_f(precision=x)
         gx = function_g(x)
         gy = function_g(prox)
         tolerance = (1 - delta) * (gy - gx + _scalar_product(y_minus_x, grad))
@@ -154,7 +154,7 @@ def choose_lamda(
             if loss_diff <= lamda * tolerance and positive_definite(x1):
                 break
         elif criterion == "c":
-            obj_diff = objective_f(x1) - objective_x
+            obj_diff = objective_f(precision=x1) - objective_x
             # if positive_definite(x1) and obj_diff <= lamda * tolerance:
             cond = True
             # COND IS lamda > 0 if min_eigen_y >= 0 else lamda < min_eigen_x / (min_eigen_x - min_eigen_y)
diff --git a/regain/forward_backward/time_graphical_lasso_.py b/regain/forward_backward/time_graphical_lasso_.py
index e79df21..a472f17 100644
--- a/regain/forward_backward/time_graphical_lasso_.py
+++ b/regain/forward_backward/time_graphical_lasso_.py
@@ -318,7 +318,6 @@ def tgl_forward_backward(
                 p=time_norm,
                 grad=grad,
                 prox=y,
-                vareps=vareps,
             )
             n_linesearch += n_ls
 
-- 
2.43.0


From 6ec126aa73a384cfb7de9187ac93f1bfef1f0555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:10 +0000
Subject: [PATCH 14/86] fix: tgl_forward_backward works with its default
 n_samples

---
 regain/forward_backward/time_graphical_lasso_.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/regain/forward_backward/time_graphical_lasso_.py b/regain/forward_backward/time_graphical_lasso_.py
index a472f17..1da32fc 100644
--- a/regain/forward_backward/time_graphical_lasso_.py
+++ b/regain/forward_backward/time_graphical_lasso_.py
@@ -229,6 +229,8 @@ def tgl_forward_backward(
 
     n_times, _, n_features = emp_cov.shape
     K = init_precision(emp_cov, mode=init)
+    if n_samples is None:
+        n_samples = np.ones(n_times)
 
     if laplacian_penalty:
         obj_partial = partial(
-- 
2.43.0


From ca6dc31ba531149c24b9f3bdd40b631e2957d8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:52 +0000
Subject: [PATCH 15/86] fix: forward-backward line searches reject points that
 are not positive definite

---
 regain/forward_backward/forward_backward.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/regain/forward_backward/forward_backward.py b/regain/forward_backward/forward_backward.py
index a49f369..9b8438f 100644
--- a/regain/forward_backward/forward_backward.py
+++ b/regain/forward_backward/forward_backward.py
@@ -87,11 +87,12 @@ def choose_gamma(
 
         if choose == "gamma":
             y_minus_x = prox - x
-            loss_diff = function_f(K=x + lamda * y_minus_x) - fx
+            x1 = x + lamda * y_minus_x
+            loss_diff = function_f(K=x1) - fx
 
             tolerance = _scalar_product(y_minus_x, grad)
             tolerance += delta / gamma * _scalar_product(y_minus_x, y_minus_x)
-            if loss_diff <= lamda * tolerance:
+            if loss_diff <= lamda * tolerance and positive_definite(x1):
                 break
         gamma *= eps
 
@@ -155,10 +156,7 @@ def choose_lamda(
                 break
         elif criterion == "c":
             obj_diff = objective_f(precision=x1) - objective_x
-            # if positive_definite(x1) and obj_diff <= lamda * tolerance:
-            cond = True
-            # COND IS lamda > 0 if min_eigen_y >= 0 else lamda < min_eigen_x / (min_eigen_x - min_eigen_y)
-            if cond and obj_diff <= lamda * tolerance:
+            if positive_definite(x1) and obj_diff <= lamda * tolerance:
                 break
         else:
             raise ValueError(criterion)
-- 
2.43.0


From 6f1f39b7968c0444fdb6510cb2ae21c4afbb6bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:52 +0000
Subject: [PATCH 16/86] fix: error_norm supports the documented spectral norm

---
 regain/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regain/utils.py b/regain/utils.py
index 20c82b6..a0cabfe 100644
--- a/regain/utils.py
+++ b/regain/utils.py
@@ -42,7 +42,7 @@ from dataclasses import dataclass
 import numpy as np
 import six
 from numpy.linalg.linalg import LinAlgError
-from scipy import stats
+from scipy import linalg, stats
 from scipy.spatial.distance import squareform
 from six.moves import cPickle as pkl
 from sklearn.metrics import average_precision_score, matthews_corrcoef
@@ -373,7 +373,7 @@ def error_norm(
     if norm == "frobenius":
         squared_norm = np.sum(error**2)
     elif norm == "spectral":
-        squared_norm = np.amax(np.linalg.svdvals(np.dot(error.T, error)))
+        squared_norm = np.amax(linalg.svdvals(np.dot(error.T, error)))
     else:
         raise NotImplementedError("Only spectral and frobenius norms are implemented")
     # optionally scale the error norm
-- 
2.43.0


From 13c69a28141c12cd42b4de7241ab71553b52539c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:52 +0000
Subject: [PATCH 17/86] fix: average precision and MCC of structure_error count
 negative entries as edges

---
 regain/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regain/utils.py b/regain/utils.py
index a0cabfe..bec8284 100644
--- a/regain/utils.py
+++ b/regain/utils.py
@@ -462,8 +462,8 @@ def structure_error(true, pred, thresholding=False, eps=1e-2, no_diagonal=False)
         y_true = squareform(true, checks=None)
         y_pred = squareform(pred, checks=None)
 
-    average_precision = average_precision_score(y_true > 0, y_pred)
-    mcc = matthews_corrcoef(y_true > 0, y_pred > 0)
+    average_precision = average_precision_score(y_true != 0, np.abs(y_pred))
+    mcc = matthews_corrcoef(y_true != 0, y_pred != 0)
 
     if thresholding:
         pred[np.abs(pred) < eps] = 0
-- 
2.43.0


From e870fa50e1ae2bfad00fb452d9c712ea1b5abcc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:52 +0000
Subject: [PATCH 18/86] fix: structure_error does not divide by zero when there
 is no true edge

---
 regain/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regain/utils.py b/regain/utils.py
index bec8284..89506d0 100644
--- a/regain/utils.py
+++ b/regain/utils.py
@@ -489,8 +489,8 @@ def structure_error(true, pred, thresholding=False, eps=1e-2, no_diagonal=False)
     TP = np.count_nonzero((res == 3).astype(float))
 
     precision = TP / (TP + FP) if TP + FP > 0 else 0
-    recall = TP / (TP + FN)
-    miss_rate = FN / (TP + FN) or 1 - recall
+    recall = TP / (TP + FN) if TP + FN > 0 else 0
+    miss_rate = 1 - recall
     f1 = 2 * precision * recall / (precision + recall) if precision + recall > 0 else 0
 
     accuracy = (TP + TN) / true.size
-- 
2.43.0


From bd9c4594d77bc1c495acf59fea71dd55744c815d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:52 +0000
Subject: [PATCH 19/86] fix: mean_structure_error handles every metric
 structure_error returns

---
 regain/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/regain/utils.py b/regain/utils.py
index 89506d0..40c98db 100644
--- a/regain/utils.py
+++ b/regain/utils.py
@@ -576,6 +576,7 @@ def mean_structure_error(true, preds):
         dor=[],
         balanced_accuracy=[],
         average_precision=[],
+        mcc=[],
     )
     for p in preds:
         res = structure_error(true, p, no_diagonal=True)
-- 
2.43.0


From ebaa8c961776be931ce1e48389a886d0790302fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:52 +0000
Subject: [PATCH 20/86] fix: convert_data_to_2d accepts classes with different
 numbers of samples

---
 regain/utils.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/regain/utils.py b/regain/utils.py
index 40c98db..c2c98e0 100644
--- a/regain/utils.py
+++ b/regain/utils.py
@@ -284,11 +284,7 @@ def convert_data_to_2d(data):
     to the class is encoded in y.
     """
     X = np.vstack(data)
-    y = (
-        np.array([np.ones(x.shape[0]) * i for i, x in enumerate(data)])
-        .flatten()
-        .astype(int)
-    )
+    y = np.repeat(np.arange(len(data)), [len(x) for x in data])
     return X, y
 
 
-- 
2.43.0


From 688871fc68c8ae7cab57e907c3ef36467f9354fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:53 +0000
Subject: [PATCH 21/86] fix: write_network writes what read_network reads

---
 regain/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/utils.py b/regain/utils.py
index c2c98e0..455c3c4 100644
--- a/regain/utils.py
+++ b/regain/utils.py
@@ -187,7 +187,7 @@ def load_pickle(filename):
 
 def write_network(dataframe, filename):
     """Write a network as a list of interactions."""
-    dataframe.stack().to_csv(filename)
+    dataframe.stack().to_csv(filename, header=False)
 
 
 def read_network(
-- 
2.43.0


From 87a6a8d2c233e1bbf488a606da41e171db07c8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:37 +0000
Subject: [PATCH 22/86] fix: accuracy and prevalence of structure_error leave
 out the diagonal with no_diagonal

---
 regain/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/regain/utils.py b/regain/utils.py
index 455c3c4..dd90dbf 100644
--- a/regain/utils.py
+++ b/regain/utils.py
@@ -489,8 +489,9 @@ def structure_error(true, pred, thresholding=False, eps=1e-2, no_diagonal=False)
     miss_rate = 1 - recall
     f1 = 2 * precision * recall / (precision + recall) if precision + recall > 0 else 0
 
-    accuracy = (TP + TN) / true.size
-    prevalence = (TP + FN) / true.size
+    n_entries = TP + TN + FP + FN  # diagonal excluded if no_diagonal
+    accuracy = (TP + TN) / n_entries
+    prevalence = (TP + FN) / n_entries
 
     fall_out = FP / (FP + TN) if (FP + TN) > 0 else 1
     specificity = TN / (FP + TN) if (FP + TN) > 0 else 1.0 - fall_out
-- 
2.43.0


From 82ad8eb8c3c9c6da3159e8898e8fecf6beee2c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:34 +0000
Subject: [PATCH 23/86] fix: log-determinant prox keeps accuracy and positive
 definiteness for large eigenvalues

---
 regain/prox.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/regain/prox.py b/regain/prox.py
index aa52408..ad5ca8e 100644
--- a/regain/prox.py
+++ b/regain/prox.py
@@ -132,7 +132,9 @@ def prox_linf(a, lamda):
 def prox_logdet(a, lamda):
     """Time-varying latent variable graphical lasso prox."""
     es, Q = np.linalg.eigh(a)
-    xi = (-es + np.sqrt(np.square(es) + 4.0 / lamda)) * lamda / 2.0
+    root = np.sqrt(np.square(es) + 4.0 / lamda)
+    # same value in both branches, without cancellation for large eigenvalues
+    xi = np.where(es > 0, 2.0 / (np.abs(es) + root), (-es + root) * lamda / 2.0)
     # return np.linalg.multi_dot((Q, np.diag(xi), Q.T))
 
     # support ndim > 2
@@ -143,7 +145,9 @@ def prox_logdet(a, lamda):
 
 def prox_logdet_ala_ma(a, lamda):
     es, Q = np.linalg.eigh(a)
-    xi = (-es + np.sqrt(np.square(es) + 4.0 * lamda)) / 2.0
+    root = np.sqrt(np.square(es) + 4.0 * lamda)
+    # same value in both branches, without cancellation for large eigenvalues
+    xi = np.where(es > 0, 2.0 * lamda / (np.abs(es) + root), (-es + root) / 2.0)
     # return np.linalg.multi_dot((Q, np.diag(xi), Q.T))
 
     # support ndim > 2
-- 
2.43.0


From ff6683b6edfda2aac15a2d15e3f5aee134bc58c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:26 +0000
Subject: [PATCH 24/86] fix: load_pickle finds what save_pickle wrote under the
 same name

---
 regain/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/regain/utils.py b/regain/utils.py
index dd90dbf..9fc7274 100644
--- a/regain/utils.py
+++ b/regain/utils.py
@@ -180,6 +180,9 @@ def save_pickle(obj, filename):
 
 def load_pickle(filename):
     """Read pickle utility."""
+    if not os.path.exists(filename):
+        # `save_pickle` adds the extension when it is missing
+        filename = _ensure_filename_ending(filename, ".pkl")
     with open(filename, "rb") as f:
         res = pkl.load(f)
     return res
-- 
2.43.0


From e915bad8d8228852a4cfb6fa8ff7f19a20d5b456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:31 +0000
Subject: [PATCH 25/86] fix: fitting with alpha='max' keeps the parameter, so
 that a refit adapts to its own data

---
 regain/forward_backward/time_graphical_lasso_.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/regain/forward_backward/time_graphical_lasso_.py b/regain/forward_backward/time_graphical_lasso_.py
index 1da32fc..c7129ca 100644
--- a/regain/forward_backward/time_graphical_lasso_.py
+++ b/regain/forward_backward/time_graphical_lasso_.py
@@ -523,13 +523,14 @@ class TimeGraphicalLassoForwardBackward(TimeGraphicalLasso):
             Empirical covariance of data.
 
         """
-        if self.alpha == "max":
-            self.alpha = max(alpha_max(e) for e in emp_cov)
+        alpha = self.alpha
+        if isinstance(alpha, str) and alpha == "max":
+            alpha = max(alpha_max(e) for e in emp_cov)
 
         out = tgl_forward_backward(
             emp_cov,
             n_samples=n_samples,
-            alpha=self.alpha,
+            alpha=alpha,
             beta=self.beta,
             tol=self.tol,
             max_iter=self.max_iter,
-- 
2.43.0


From 86fcea46a0900baf351b15f2d571cbf468b5611f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:42 +0000
Subject: [PATCH 26/86] fix: make_fixed_sparsity changes only the edges
 present, keeping the sparsity fixed

---
 regain/datasets/gaussian.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regain/datasets/gaussian.py b/regain/datasets/gaussian.py
index 1fad232..3e33418 100644
--- a/regain/datasets/gaussian.py
+++ b/regain/datasets/gaussian.py
@@ -453,7 +453,7 @@ def make_fixed_sparsity(n_dim_obs=100, n_dim_lat=10, T=10, **kwargs):
 
     theta = np.abs(theta)
     theta_observed = theta - L
-    nonzeros = np.nonzero(theta - np.diag(theta))
+    nonzeros = np.nonzero(theta - np.diag(np.diag(theta)))
 
     thetas = [theta]
     thetas_obs = [theta_observed]
@@ -470,7 +470,7 @@ def make_fixed_sparsity(n_dim_obs=100, n_dim_lat=10, T=10, **kwargs):
         theta.flat[:: n_dim_obs + 1] = (
             np.sum(np.abs(theta), axis=1) + np.sum(np.abs(L), axis=1) + 0.1
         )
-        nonzeros = np.nonzero(theta - np.diag(theta))
+        nonzeros = np.nonzero(theta - np.diag(np.diag(theta)))
 
         theta_observed = theta - L
         assert is_pos_def(theta_observed)
-- 
2.43.0


From 80900b9a02f35b9359359bc2e9fc355f2d148d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:42 +0000
Subject: [PATCH 27/86] fix: make_sin_cos returns the observed precision of
 every time, not of the last only

---
 regain/datasets/gaussian.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/regain/datasets/gaussian.py b/regain/datasets/gaussian.py
index 3e33418..ca96a38 100644
--- a/regain/datasets/gaussian.py
+++ b/regain/datasets/gaussian.py
@@ -534,6 +534,7 @@ def make_sin_cos(n_dim_obs=100, n_dim_lat=10, T=10, **kwargs):
     clip[upper_idx[::-1]] = clip[upper_idx] = clip1
 
     thetas = np.array([np.eye(n_dim_obs) for i in range(T)])
+    thetas_obs = []
 
     x = np.linspace(0, 2 * np.pi, T)
     for i in range(T):
@@ -551,7 +552,7 @@ def make_sin_cos(n_dim_obs=100, n_dim_lat=10, T=10, **kwargs):
         assert is_pos_def(thetas[i])
         theta_observed = thetas[i] - L
         assert is_pos_def(theta_observed)
-        thetas_obs = [theta_observed]
+        thetas_obs.append(theta_observed)
 
     return thetas, thetas_obs, np.array([L] * T)
 
-- 
2.43.0


From 941aea188638570d29947c00a5701d04b04d660e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:25 +0000
Subject: [PATCH 28/86] fix: l1 updates of Ising and Poisson graphs change at
 most the requested edges and no self-loop

---
 regain/datasets/ising.py   | 6 +++---
 regain/datasets/poisson.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/regain/datasets/ising.py b/regain/datasets/ising.py
index c2c9740..006de4c 100644
--- a/regain/datasets/ising.py
+++ b/regain/datasets/ising.py
@@ -44,9 +44,9 @@ def update_ising_l1(theta_init, no, n_dim_obs, responses=[-1, 1]):
     while np.any(rows == cols):
         rows = np.random.randint(0, n_dim_obs, no)
         cols = np.random.randint(0, n_dim_obs, no)
-        for r, c in zip(rows, cols):
-            theta[r, c] = np.random.choice(responses) if theta[r, c] == 0 else np.random.choice([theta[r, c], 0])
-            theta[c, r] = theta[r, c]
+    for r, c in zip(rows, cols):
+        theta[r, c] = np.random.choice(responses) if theta[r, c] == 0 else np.random.choice([theta[r, c], 0])
+        theta[c, r] = theta[r, c]
     assert np.all(theta == theta.T)
     return theta
 
diff --git a/regain/datasets/poisson.py b/regain/datasets/poisson.py
index be405e7..9f867ae 100644
--- a/regain/datasets/poisson.py
+++ b/regain/datasets/poisson.py
@@ -41,9 +41,9 @@ def update_l1(G, how_many, n_dim_obs):
     while np.any(rows == cols):
         rows = np.random.randint(0, n_dim_obs, how_many)
         cols = np.random.randint(0, n_dim_obs, how_many)
-        for r, c in zip(rows, cols):
-            G[r, c] = np.random.choice([0, G[r, c]])
-            G[c, r] = G[r, c]
+    for r, c in zip(rows, cols):
+        G[r, c] = np.random.choice([0, G[r, c]])
+        G[c, r] = G[r, c]
     assert np.all(G == G.T)
     return G
 
-- 
2.43.0


From fdc99a3a39d010ecc80465e97a3d682ef2f8c8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:25 +0000
Subject: [PATCH 29/86] fix: direct Ising sampling draws from the distribution
 the other samplers use, for any size

---
 regain/datasets/ising.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/regain/datasets/ising.py b/regain/datasets/ising.py
index 006de4c..c149d2e 100644
--- a/regain/datasets/ising.py
+++ b/regain/datasets/ising.py
@@ -138,7 +138,7 @@ def hamiltonian(theta, state, thresholds):
     n = theta.shape[0]
     for i in range(n):
         res -= thresholds[i] * state[i]
-        res += np.sum([-theta[i, j] * state[i] * state[j] for j in range(n) if j != i])
+        res += np.sum([-theta[i, j] * state[i] * state[j] for j in range(i + 1, n)])
 
     return res
 
@@ -150,13 +150,11 @@ def direct_sampling(theta, thresholds, n=1000, beta=1, responses=[0, 1]):
     if len(responses) != 2:
         raise ValueError("The responses must be two numbers.")
 
-    np.fill_diagonal(theta, 0)
-
-    states = [list(seq) for seq in itertools.product(responses, repeat=10)]
+    states = [list(seq) for seq in itertools.product(responses, repeat=theta.shape[0])]
     probabilities = np.exp(-beta * np.array([hamiltonian(theta, s, thresholds) for s in states]))
     probabilities /= np.sum(probabilities)
-    ixs = np.random.choice(np.arange(0, len(states)), n, replace=False, p=probabilities)
-    return [states[i] for i in ixs]
+    ixs = np.random.choice(np.arange(0, len(states)), n, replace=True, p=probabilities)
+    return np.array([states[i] for i in ixs])
 
 
 def p_plus_minmax(i, theta, state, thresholds, beta, responses):
-- 
2.43.0


From 07ca5534705f7097c1c737c274338bcb37cb51d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:25 +0000
Subject: [PATCH 30/86] fix: ising_sampler does not modify the matrix it is
 given

---
 regain/datasets/ising.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/regain/datasets/ising.py b/regain/datasets/ising.py
index c149d2e..8b70b80 100644
--- a/regain/datasets/ising.py
+++ b/regain/datasets/ising.py
@@ -298,7 +298,6 @@ def ising_sampler(
     assert np.all(theta == theta.T), "The input graph must be symmetric"
     if len(responses) != 2:
         raise ValueError("The responses must be two numbers.")
-    np.fill_diagonal(theta, 0)
     minimum = -sys.maxsize - 1
     p = theta.shape[0]
 
-- 
2.43.0


From 9cb91d032a61dd0d159689a991599e4cfa027f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:45 +0000
Subject: [PATCH 31/86] fix: ising_sampler returns a matrix also for a single
 sample

---
 regain/datasets/ising.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/regain/datasets/ising.py b/regain/datasets/ising.py
index 8b70b80..f605ce9 100644
--- a/regain/datasets/ising.py
+++ b/regain/datasets/ising.py
@@ -332,10 +332,12 @@ def ising_sampler(
 
     # Metropolis Hastings
     elif method.upper() == "MH":
-        res = ising_metropolis_hastings(theta, thresholds, beta, max_iter, responses, constraints[0, :])
-        for s in range(1, n):
-            state = ising_metropolis_hastings(theta, thresholds, beta, max_iter, responses, constraints[s, :])
-            res = np.vstack((res, state))
+        res = np.array(
+            [
+                ising_metropolis_hastings(theta, thresholds, beta, max_iter, responses, constraints[s, :])
+                for s in range(n)
+            ]
+        )
 
     # Direct sampling
     elif method.upper() == "DIRECT":
-- 
2.43.0


From 43a7763efb44b7f7125d07e41b9bbef79bda21a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:45 +0000
Subject: [PATCH 32/86] fix: the class networks of make_multiclass_dataset
 change the edges drawn for the class

---
 regain/datasets/multi_class.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/regain/datasets/multi_class.py b/regain/datasets/multi_class.py
index 7e95977..b302fcf 100644
--- a/regain/datasets/multi_class.py
+++ b/regain/datasets/multi_class.py
@@ -146,7 +146,7 @@ def generate_multiple_class_dataset(
         graph = nx.random_graphs.erdos_renyi_graph(n=n_dim_obs, p=probability, seed=random_state)
 
     binaries = [nx.adjacency_matrix(graph).todense()]
-    zeros = np.where(binaries[0] == 0)
+    zeros = np.where(binaries[0] + np.eye(n_dim_obs) == 0)  # no self-loops
     nonzero = np.where(binaries[0] != 0)
     to_add = int(0.1 * zeros[0].shape[0])
     to_remove = int(0.1 * nonzero[0].shape[0])
@@ -156,12 +156,12 @@ def generate_multiple_class_dataset(
         _to_remove = np.random.choice(np.arange(nonzero[0].shape[0]), to_remove, replace=False)
         for ta in _to_add:
             a = np.random.choice([0, 1], p=[0.2, 0.8])
-            K_new[zeros[0][i], zeros[1][i]] = a
-            K_new[zeros[1][i], zeros[0][i]] = a
+            K_new[zeros[0][ta], zeros[1][ta]] = a
+            K_new[zeros[1][ta], zeros[0][ta]] = a
         for ta in _to_remove:
             a = np.random.choice([0, 1], p=[0.8, 0.2])
-            K_new[nonzero[0][i], nonzero[1][i]] = a
-            K_new[nonzero[1][i], nonzero[0][i]] = a
+            K_new[nonzero[0][ta], nonzero[1][ta]] = a
+            K_new[nonzero[1][ta], nonzero[0][ta]] = a
         binaries.append(K_new)
 
     res = {}
-- 
2.43.0


From c3598f3a309973ce4769156340e63ab5008bacc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:45 +0000
Subject: [PATCH 33/86] fix: Gaussian networks of make_multiclass_dataset are
 valid precision matrices

---
 regain/datasets/multi_class.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/regain/datasets/multi_class.py b/regain/datasets/multi_class.py
index b302fcf..e7df046 100644
--- a/regain/datasets/multi_class.py
+++ b/regain/datasets/multi_class.py
@@ -34,6 +34,7 @@ from sklearn.utils import Bunch
 
 from regain.datasets.ising import ising_sampler
 from regain.datasets.poisson import poisson_sampler
+from regain.utils import ensure_posdef
 
 
 def make_multiclass_dataset(
@@ -172,6 +173,7 @@ def generate_multiple_class_dataset(
         for b, k in zip(binaries, Ks_gaussian):
             k[np.where(b != 0)] = A[np.where(b != 0)]
             np.fill_diagonal(k, 1)
+            ensure_posdef(k)
         res["gaussian"] = Ks_gaussian
 
     if "poisson" in distribution:
-- 
2.43.0


From 300f46344147637e737d57902b50cd611ee53e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:00 +0000
Subject: [PATCH 34/86] fix: lasso and group_lasso return what they document

---
 regain/linear_model/group_lasso_.py | 2 +-
 regain/linear_model/lasso_.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/regain/linear_model/group_lasso_.py b/regain/linear_model/group_lasso_.py
index 7e32de5..bf75c17 100644
--- a/regain/linear_model/group_lasso_.py
+++ b/regain/linear_model/group_lasso_.py
@@ -135,7 +135,7 @@ def group_lasso(
         if history[1] < history[3] and history[2] < history[4]:
             break
 
-    return z, hist if return_history else z
+    return (z, hist) if return_history else z
 
 
 def objective(A, b, alpha, groups, x, z):
diff --git a/regain/linear_model/lasso_.py b/regain/linear_model/lasso_.py
index 2dde28e..6a393bc 100644
--- a/regain/linear_model/lasso_.py
+++ b/regain/linear_model/lasso_.py
@@ -117,7 +117,7 @@ def lasso(A, b, lamda=1.0, rho=1.0, alpha=1.0, max_iter=1000, tol=1e-4, rtol=1e-
         if history[1] < history[3] and history[2] < history[4]:
             break
 
-    return z, history if return_history else z
+    return (z, hist) if return_history else z
 
 
 def objective(A, b, alpha, x, z):
-- 
2.43.0


From 62607a8df0bd1670260e861199f761eefc089b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:00 +0000
Subject: [PATCH 35/86] fix: group_lasso shrinks whole groups and measures the
 change of z

---
 regain/linear_model/group_lasso_.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/regain/linear_model/group_lasso_.py b/regain/linear_model/group_lasso_.py
index bf75c17..68a908a 100644
--- a/regain/linear_model/group_lasso_.py
+++ b/regain/linear_model/group_lasso_.py
@@ -36,7 +36,7 @@ import numpy as np
 from six.moves import range
 
 from regain.linear_model.lasso_ import lu_factor
-from regain.prox import soft_thresholding
+from regain.prox import soft_thresholding_vector
 from regain.utils import flatten
 
 
@@ -114,10 +114,10 @@ def group_lasso(
             x /= rho
 
         # % z-update with relaxation
-        zold = z
+        zold = z.copy()
         x_hat = alpha * x + (1 - alpha) * zold
         for group in groups:
-            z[group] = soft_thresholding(x_hat[group] + u[group], lamda / rho)
+            z[group] = soft_thresholding_vector(x_hat[group] + u[group], lamda / rho)
 
         # % u-update
         u += x_hat - z
-- 
2.43.0


From 1a6bf62bc15f45b889a3dc2f26e439dde73786d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:00 +0000
Subject: [PATCH 36/86] fix: group_lasso_overlap minimises its documented
 objective, for groups of any size

---
 regain/linear_model/group_lasso_overlap_.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/regain/linear_model/group_lasso_overlap_.py b/regain/linear_model/group_lasso_overlap_.py
index 12ddcd8..18289da 100644
--- a/regain/linear_model/group_lasso_overlap_.py
+++ b/regain/linear_model/group_lasso_overlap_.py
@@ -42,7 +42,7 @@ from sklearn.utils import check_array, check_X_y, deprecated
 from sklearn.utils.extmath import safe_sparse_dot
 from sklearn.utils.validation import check_is_fitted
 
-from regain.prox import soft_thresholding
+from regain.prox import soft_thresholding, soft_thresholding_vector
 from regain.utils import flatten
 from regain.wrapper.paspal.glopridu import glopridu_algorithm
 
@@ -136,6 +136,7 @@ def group_lasso_overlap(A, b, lamda=1.0, groups=None, rho=1.0, max_iter=100, tol
     z = np.zeros(d)
     y = [np.zeros(len(g)) for g in groups]
 
+    index = np.concatenate(groups).astype(int)  # variable of each local copy
     D = np.diag(D_function(d, groups))
     Atb = A.T.dot(b)
     inv = np.linalg.inv(A.T.dot(A) + rho * D)
@@ -144,7 +145,7 @@ def group_lasso_overlap(A, b, lamda=1.0, groups=None, rho=1.0, max_iter=100, tol
     for k in range(max_iter):
         # x update
         for i, g in enumerate(groups):
-            x[i] = soft_thresholding(x[i] - y[i] / rho, lamda / rho)
+            x[i] = soft_thresholding_vector(z[g] - y[i] / rho, lamda / rho)
 
         # z update
         zold = z
@@ -158,10 +159,11 @@ def group_lasso_overlap(A, b, lamda=1.0, groups=None, rho=1.0, max_iter=100, tol
         # diagnostics, reporting, termination checks
         history = (
             objective(A, b, lamda, x, z),  # objective
-            np.linalg.norm(x_consensus - z),  # rnorm
-            np.linalg.norm(-rho * (z - zold)),  # snorm
-            np.sqrt(d) * tol + rtol * max(np.linalg.norm(x_consensus), np.linalg.norm(-z)),  # eps primal
-            np.sqrt(d) * tol + rtol * np.linalg.norm(rho * y_consensus)
+            np.linalg.norm(np.concatenate(x) - z[index]),  # rnorm
+            np.linalg.norm(-rho * (z - zold)[index]),  # snorm
+            np.sqrt(index.size) * tol
+            + rtol * max(np.linalg.norm(np.concatenate(x)), np.linalg.norm(z[index])),  # eps primal
+            np.sqrt(index.size) * tol + rtol * np.linalg.norm(np.concatenate(y))
             # eps dual
         )
 
@@ -561,4 +563,4 @@ def _overlapping_group_lasso(A, b, lamda=1.0, groups=None, rho=1.0, alpha=1.0, m
 
 def objective(A, b, alpha, x, z):
     """Group lasso with overlap objective function."""
-    return 0.5 * np.sum((A.dot(z) - b) ** 2) + alpha * np.linalg.norm(x)
+    return 0.5 * np.sum((A.dot(z) - b) ** 2) + alpha * sum(np.linalg.norm(x_g) for x_g in x)
-- 
2.43.0


From 198dbda1c6520df8c180e118672a88de3cf09639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:40 +0000
Subject: [PATCH 37/86] fix: GroupLassoOverlap.n_iter_ is the number of
 iterations run

---
 regain/linear_model/group_lasso_overlap_.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/linear_model/group_lasso_overlap_.py b/regain/linear_model/group_lasso_overlap_.py
index 18289da..ea313cf 100644
--- a/regain/linear_model/group_lasso_overlap_.py
+++ b/regain/linear_model/group_lasso_overlap_.py
@@ -179,7 +179,7 @@ def group_lasso_overlap(A, b, lamda=1.0, groups=None, rho=1.0, max_iter=100, tol
         else:
             count = 0
 
-    return z, hist, k
+    return z, hist, k + 1
 
 
 class GroupLassoOverlap(LinearModel, RegressorMixin):
-- 
2.43.0


From e54eb11ea91d3a6dfd849403e262b18ba7011fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:53 +0000
Subject: [PATCH 38/86] fix: DiscriminantAnalysis(ensure_posdef=True) does not
 overwrite the estimator's precision

---
 regain/discriminant_analysis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/regain/discriminant_analysis.py b/regain/discriminant_analysis.py
index e840324..c16c583 100644
--- a/regain/discriminant_analysis.py
+++ b/regain/discriminant_analysis.py
@@ -135,7 +135,8 @@ class DiscriminantAnalysis(QuadraticDiscriminantAnalysis):
             self.covariance_ = np.array([linalg.pinvh(p) for p in self.precision_])
 
         if self.ensure_posdef:
-            # replace diagonal
+            # replace diagonal, on a copy: the estimator keeps its own estimate
+            self.precision_ = np.array(self.precision_)
             ensure_posdef(self.precision_, inplace=True)
             self.covariance_ = np.array([linalg.pinvh(p) for p in self.precision_])
         self.means_ = self.estimator.location_
-- 
2.43.0


From 1a3318cffcdeb19db990bf3fc2a007a284d9a4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:40 +0000
Subject: [PATCH 39/86] fix: the Ising gradient sums over all samples, not only
 the first

---
 regain/generalized_linear_model/glm_ising.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/generalized_linear_model/glm_ising.py b/regain/generalized_linear_model/glm_ising.py
index efab1cc..a10121d 100644
--- a/regain/generalized_linear_model/glm_ising.py
+++ b/regain/generalized_linear_model/glm_ising.py
@@ -76,7 +76,7 @@ def _gradient_ising(X, theta, n, A=None, rho=1, T=0):
             EXT = np.exp(XT)
             E_XT = np.exp(-XT)
             sum_ += (1 / n) * X[i, selector] * ((EXT - E_XT) / (EXT + E_XT) - X[i, r])
-            return sum_
+        return sum_
 
     for ix in range(theta.shape[0]):
         selector = [i for i in range(d) if i != ix]
-- 
2.43.0


From 8af72517cff54d7ad7ac4eef00d95798edc6e873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:40 +0000
Subject: [PATCH 40/86] fix: Ising and Poisson objectives return infinity for a
 non-symmetric matrix instead of failing

---
 regain/generalized_linear_model/glm_ising.py   | 2 +-
 regain/generalized_linear_model/glm_poisson.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/regain/generalized_linear_model/glm_ising.py b/regain/generalized_linear_model/glm_ising.py
index a10121d..acd28fc 100644
--- a/regain/generalized_linear_model/glm_ising.py
+++ b/regain/generalized_linear_model/glm_ising.py
@@ -47,7 +47,7 @@ def loss(X, theta):
     n, d = X.shape
     objective = 0
     if not np.all(theta == theta.T):
-        return np.float("inf")
+        return np.inf
     for r in range(d):
         selector = [i for i in range(d) if i != r]
         for i in range(n):
diff --git a/regain/generalized_linear_model/glm_poisson.py b/regain/generalized_linear_model/glm_poisson.py
index 2b577de..b704dc4 100644
--- a/regain/generalized_linear_model/glm_poisson.py
+++ b/regain/generalized_linear_model/glm_poisson.py
@@ -54,7 +54,7 @@ def objective(X, theta, alpha):
     n, d = X.shape
     objective = 0
     if not np.all(theta == theta.T):
-        return np.float("inf")
+        return np.inf
     for r in range(d):
         selector = [i for i in range(d) if i != r]
         objective += objective_single_variable(X, theta[r, selector], n, r, selector, 0)
-- 
2.43.0


From 793405c8953f692f454c511862a15fdaf09f11b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:40 +0000
Subject: [PATCH 41/86] fix: the union of neighbourhoods averages both
 estimates of every edge

---
 regain/generalized_linear_model/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/generalized_linear_model/base.py b/regain/generalized_linear_model/base.py
index 6236d50..4d1df22 100644
--- a/regain/generalized_linear_model/base.py
+++ b/regain/generalized_linear_model/base.py
@@ -22,7 +22,7 @@ def build_adjacency_matrix(neighbours, how="union"):
         for i, arr in enumerate(neighbours):
             where = [j for j in range(len(neighbours)) if j != i]
             out[i, where] = arr
-            out = (out + out.T) / 2
+        out = (out + out.T) / 2
     elif how.lower() == "intersection":
         for i, arr in enumerate(neighbours):
             where = [j for j in range(len(neighbours)) if j != i]
-- 
2.43.0


From c39281cb1935149088b845826eb0bba2da98aac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:40 +0000
Subject: [PATCH 42/86] fix: the line search of the Poisson model steps from
 the last accepted point

---
 regain/generalized_linear_model/glm_poisson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/generalized_linear_model/glm_poisson.py b/regain/generalized_linear_model/glm_poisson.py
index b704dc4..f2f1bd8 100644
--- a/regain/generalized_linear_model/glm_poisson.py
+++ b/regain/generalized_linear_model/glm_poisson.py
@@ -105,7 +105,7 @@ def fit_each_variable(
         theta_old = thetas[-1]
         grad = gradient(X, theta, ix, selector, n, A, T, rho)
         while True:
-            theta_new = theta - gamma * grad
+            theta_new = theta_old - gamma * grad
             theta = soft_thresholding(theta_new, alpha * gamma)
             loss_new = loss_single_variable(X, theta, n, ix, selector)
             loss_old = loss_single_variable(X, theta_old, n, ix, selector)
-- 
2.43.0


From a8b23f0f5b38b590b6fa9705115ed02778a3e8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:40 +0000
Subject: [PATCH 43/86] fix: PoissonGraphicalModel and Gaussian_GLM_GM use the
 step size, tolerance and iteration limit given

---
 regain/generalized_linear_model/glm_gaussian.py | 10 +++++++++-
 regain/generalized_linear_model/glm_poisson.py  |  8 +++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/regain/generalized_linear_model/glm_gaussian.py b/regain/generalized_linear_model/glm_gaussian.py
index e476243..bc13d9a 100644
--- a/regain/generalized_linear_model/glm_gaussian.py
+++ b/regain/generalized_linear_model/glm_gaussian.py
@@ -193,7 +193,15 @@ class Gaussian_GLM_GM(GLM_GM):
         thetas_pred = []
         historys = []
         for ix in range(X.shape[1]):
-            res = fit_each_variable(X, ix, self.alpha)
+            res = fit_each_variable(
+                X,
+                ix,
+                self.alpha,
+                gamma=gamma,
+                tol=self.tol,
+                max_iter=self.max_iter,
+                verbose=max(0, self.verbose - 1),
+            )
             thetas_pred.append(res[0])
             historys.append(res[1:])
         self.precision_ = build_adjacency_matrix(thetas_pred, how=self.reconstruction)
diff --git a/regain/generalized_linear_model/glm_poisson.py b/regain/generalized_linear_model/glm_poisson.py
index f2f1bd8..80fd428 100644
--- a/regain/generalized_linear_model/glm_poisson.py
+++ b/regain/generalized_linear_model/glm_poisson.py
@@ -267,7 +267,13 @@ class PoissonGraphicalModel(GLM_GM, BaseEstimator):
             for ix in range(X.shape[1]):
                 verbose = max(0, self.verbose - 1)
                 res = fit_each_variable(
-                    X, ix, self.alpha, tol=self.tol, verbose=verbose
+                    X,
+                    ix,
+                    self.alpha,
+                    gamma=self.gamma,
+                    tol=self.tol,
+                    max_iter=self.max_iter,
+                    verbose=verbose,
                 )
                 thetas_pred.append(res[0])
                 historys.append(res[1:])
-- 
2.43.0


From 9f091a47a973d5712c20f9f7dc95a454ed5a3c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:34 +0000
Subject: [PATCH 44/86] fix: the logistic_regression mode of
 IsingGraphicalModel passes a valid verbosity

---
 regain/generalized_linear_model/glm_ising.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/generalized_linear_model/glm_ising.py b/regain/generalized_linear_model/glm_ising.py
index acd28fc..5598bd9 100644
--- a/regain/generalized_linear_model/glm_ising.py
+++ b/regain/generalized_linear_model/glm_ising.py
@@ -296,7 +296,7 @@ class IsingGraphicalModel(GLM_GM, BaseEstimator):
         elif self.mode.lower() == "logistic_regression":
             thetas_pred = []
             for ix in range(X.shape[1]):
-                verbose = min(0, self.verbose - 1)
+                verbose = max(0, self.verbose - 1)
                 selector = np.array([i for i in range(X.shape[1]) if i != ix])
                 print("pd")
                 res = (
-- 
2.43.0


From b51b0ca1e3e9bba3633d0171082a6e301892c4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:59 +0000
Subject: [PATCH 45/86] fix: the temporal Ising model counts the copies of each
 network right, without an extra ridge

---
 regain/generalized_linear_model/glm_time_ising.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regain/generalized_linear_model/glm_time_ising.py b/regain/generalized_linear_model/glm_time_ising.py
index e61b7af..26bb0f0 100644
--- a/regain/generalized_linear_model/glm_time_ising.py
+++ b/regain/generalized_linear_model/glm_time_ising.py
@@ -165,7 +165,7 @@ def _fit_time_ising_model(
             A[:-m] += Z_M[m][0] - U_M[m][0]
             A[m:] += Z_M[m][1] - U_M[m][1]
 
-        A /= n_times
+        A /= max(n_times - 1, 1)
         A += A.transpose(0, 2, 1)
         A /= 2.0
         # K_new = np.zeros_like(K)
@@ -182,7 +182,7 @@ def _fit_time_ising_model(
                 compute_objective=True,
                 warm_start=None,
                 rho=rho,
-                T=n_times,
+                T=n_times - 1,
                 return_history=False,
                 return_n_iter=False,
             )[0]
-- 
2.43.0


From 888162314836ff7d8b09eda5d799de6f841e3f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:59 +0000
Subject: [PATCH 46/86] fix: the objective of the temporal Ising model adds the
 loss instead of subtracting it

---
 regain/generalized_linear_model/glm_time_ising.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/generalized_linear_model/glm_time_ising.py b/regain/generalized_linear_model/glm_time_ising.py
index 26bb0f0..ae2b573 100644
--- a/regain/generalized_linear_model/glm_time_ising.py
+++ b/regain/generalized_linear_model/glm_time_ising.py
@@ -52,7 +52,7 @@ def loss_ising(X, precision, n_samples=None):
         batch_dim = X.shape[0]
         n_samples = np.ones(batch_dim)
 
-    return sum(-ni * loss(x, k) for x, k, ni in zip(X, precision, n_samples))
+    return sum(ni * loss(x, k) for x, k, ni in zip(X, precision, n_samples))
 
 
 def objective(X, K, Z_M, alpha, kernel, psi):
-- 
2.43.0


From 0c82641fd601cd4ea77cdd58b2b8a1dcbbcea2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:17 +0000
Subject: [PATCH 47/86] fix: WishartDistribution.sample draws samples

---
 regain/bayesian/wishart_distribution_.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/bayesian/wishart_distribution_.py b/regain/bayesian/wishart_distribution_.py
index 523c2bc..68f213b 100755
--- a/regain/bayesian/wishart_distribution_.py
+++ b/regain/bayesian/wishart_distribution_.py
@@ -79,7 +79,7 @@ class WishartDistribution(BaseEstimator):
     def sample(self, n_samples=1):
         # return distributions.rwishart(self.nu, self.psi)
         # return distributions.rwishart(self.nu, self.inv_psi)
-        return stats.wishart(df=self.nu, scale=self.S, size=n_samples)
+        return stats.wishart.rvs(df=self.nu, scale=self.S, size=n_samples)
 
 
 class InverseWishartDistribution(WishartDistribution):
-- 
2.43.0


From 18173d8faf545cd9a2097dbbce226e743b29f00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:17 +0000
Subject: [PATCH 48/86] fix: the posterior of NormalInverseWishartDistribution
 has a mean vector, so that it can be evaluated and sampled

---
 regain/bayesian/wishart_distribution_.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/bayesian/wishart_distribution_.py b/regain/bayesian/wishart_distribution_.py
index 68f213b..989798f 100755
--- a/regain/bayesian/wishart_distribution_.py
+++ b/regain/bayesian/wishart_distribution_.py
@@ -226,7 +226,7 @@ class NormalInverseWishartDistribution(InverseWishartDistribution):
         # psi_n_v1 = self.psi + S_mu + k_0 * n / k_n * mm.T.dot(mm)
         S_n = self.S + S + k_0 * m_0.T.dot(m_0) - k_n * m_n.T.dot(m_n)
 
-        return NormalInverseWishartDistribution(m_n, k_n, nu_n, S_n)
+        return NormalInverseWishartDistribution(m_n.ravel(), k_n, nu_n, S_n)
 
     def predictive(self):
         """Posterior predictive. See pag 135."""
-- 
2.43.0


From 6b1bbf7b6b4a63883bfedde2830f99f70be20292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:17 +0000
Subject: [PATCH 49/86] fix: t_mvn_logpdf counts every sample once

---
 regain/bayesian/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/bayesian/stats.py b/regain/bayesian/stats.py
index 2250061..8efa0f9 100644
--- a/regain/bayesian/stats.py
+++ b/regain/bayesian/stats.py
@@ -80,7 +80,7 @@ def t_mvn_logpdf(X, Cov):
         Tensor of covariance matrices over time.
     """
     logp = sum(
-        x.shape[0] * multivariate_normal.logpdf(x, cov=Sigma, allow_singular=True).sum() for x, Sigma in zip(X, Cov.T)
+        multivariate_normal.logpdf(x, cov=Sigma, allow_singular=True).sum() for x, Sigma in zip(X, Cov.T)
     )
     if not isinstance(logp, float):
         logp = sum(logp)
-- 
2.43.0


From bd255fed278937fc601e827d5f6df73b57c2e031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:17 +0000
Subject: [PATCH 50/86] fix: elliptical_slice draws the slice height that
 leaves the posterior invariant

---
 regain/bayesian/sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/bayesian/sampling.py b/regain/bayesian/sampling.py
index 5650d05..53f6a20 100644
--- a/regain/bayesian/sampling.py
+++ b/regain/bayesian/sampling.py
@@ -104,7 +104,7 @@ def elliptical_slice(current_state, prior, likelihood=None, angle_range=0, max_i
             raise ValueError("Prior must be given by a D-element sample " "or DxD chol(Sigma)")
         nu = np.reshape(prior.T.dot(np.random.normal(size=D)), initial_theta.shape)
 
-    hh = 0.001 * np.log(np.random.uniform()) + current_logp
+    hh = np.log(np.random.uniform()) + current_logp
 
     #  Set up a bracket of angles and pick a first proposal.
     #  "phi = (theta'-theta)" is a change in angle.
-- 
2.43.0


From ba9244db8ba8a792de0009231898cdbd53978345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:17 +0000
Subject: [PATCH 51/86] fix: the default prior scale of GWishartScore is that
 of the variables, not of the samples

---
 regain/bayesian/gwishart_inference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/bayesian/gwishart_inference.py b/regain/bayesian/gwishart_inference.py
index e6bd164..5188618 100755
--- a/regain/bayesian/gwishart_inference.py
+++ b/regain/bayesian/gwishart_inference.py
@@ -325,7 +325,7 @@ def GWishartScore(X, G, d0=3, S0=None, score_method="bic", mode="covsel"):
     # %Initialize GW prior structure
     n_samples, n_dim = X.shape
     if S0 is None:
-        S0 = (d0 - 2) * np.diag(np.diag(np.cov(X, bias=True)))
+        S0 = (d0 - 2) * np.diag(np.diag(np.cov(X, rowvar=False, bias=True)))
 
     GWprior = Bunch(d0=d0, S0=S0, lognormconst=0, lognormconstDiag=0)
 
-- 
2.43.0


From b05c89c12137f97cf374a52db767c5f4c3a111a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:17 +0000
Subject: [PATCH 52/86] fix: the Laplace scores of G-Wishart models can
 evaluate the prior, which has no samples

---
 regain/bayesian/gwishart_inference.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regain/bayesian/gwishart_inference.py b/regain/bayesian/gwishart_inference.py
index 5188618..d9945e3 100755
--- a/regain/bayesian/gwishart_inference.py
+++ b/regain/bayesian/gwishart_inference.py
@@ -182,7 +182,7 @@ def GWishartFit(X, G, GWprior, mode="covsel"):
     dn = n_samples + d0
 
     # X'*X - but I dont assume X to be centered
-    emp_cov = empirical_covariance(X)
+    emp_cov = empirical_covariance(X) if n_samples > 0 else np.zeros((n_dim, n_dim))
     S = n_samples * emp_cov
     C = (S + S0) / (dn - 2)
 
@@ -222,7 +222,7 @@ def compute_score(X, G, P, S, GWprior=None, score_method="bic"):
     logdetP = np.sum(np.log(s))
 
     # % compute loglik
-    loglik = n_samples * log_likelihood(S / n_samples, P)
+    loglik = n_samples * log_likelihood(S / n_samples, P) if n_samples > 0 else 0
 
     num_edges = np.triu(G, 1).sum()
     dof = num_edges + n_dim
-- 
2.43.0


From 1e46eb2936a9de9c7baabacb6df7ba60f2e0e021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:41 +0000
Subject: [PATCH 53/86] fix: the covariance selection of G-Wishart models stays
 in the positive definite cone and returns a gradient there

---
 regain/bayesian/gwishart_inference.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/regain/bayesian/gwishart_inference.py b/regain/bayesian/gwishart_inference.py
index d9945e3..4ae64d3 100755
--- a/regain/bayesian/gwishart_inference.py
+++ b/regain/bayesian/gwishart_inference.py
@@ -140,14 +140,16 @@ def covsel(x, p, nonZero, C):
 
     # Fast Way to compute -logdet(X) + tr(X*C)
     # f = -2*sum(log(diag(R))) + sum(sum(C.*X)) + (lambda/2)*sum(X(:).^2);
-    f = -fast_logdet(X) + np.sum(C * X)
+    # outside of the positive definite cone the likelihood is zero
+    posdef = linalg.eigvalsh(X)[0] > 0
+    f = -fast_logdet(X) + np.sum(C * X) if posdef else np.inf
 
     if f < np.inf:
         g = C - linalg.pinvh(X)
         g += np.tril(g, -1).T  # add contribution from lower to upper triangle
         g = g[nonZero]
     else:
-        g = 0
+        g = np.zeros_like(x)
     return f, g
 
 
@@ -155,7 +157,7 @@ def precision_selection(G, n_dim, C):
     """MLE of precision matrix given non-zero entries in G."""
     function = partial(covsel, p=n_dim, nonZero=G, C=C)
 
-    x0 = np.eye(n_dim)
+    x0 = np.diag(1.0 / np.diag(C))
     min_obj = minimize(function, x0[G], jac=True)
     x = min_obj.x
 
-- 
2.43.0


From dc39d5c7afe6071e972de075fc16e969ce1a1f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:40 +0000
Subject: [PATCH 54/86] fix: BayesianGraphicalLasso provides its documented
 covariance_, and location_, without which it cannot score

---
 regain/bayesian/gwishart_inference.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/regain/bayesian/gwishart_inference.py b/regain/bayesian/gwishart_inference.py
index 4ae64d3..a46e1a7 100755
--- a/regain/bayesian/gwishart_inference.py
+++ b/regain/bayesian/gwishart_inference.py
@@ -508,4 +508,8 @@ class BayesianGraphicalLasso(GraphicalLasso):
             max_iter=self.max_iter,
             top_n=self.top_n,
         )
+        self.covariance_ = linalg.pinvh(self.precision_)
+        self.location_ = (
+            np.zeros(X.shape[1]) if self.assume_centered else X.mean(0)
+        )
         return self
-- 
2.43.0


From 33a7fc8e2f6a9563f76216c15bdcbe2e22d48325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:28 +0000
Subject: [PATCH 55/86] fix: graph_k_means gives a finite kernel when a graph
 equals all representatives

---
 regain/clustering.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/regain/clustering.py b/regain/clustering.py
index 107847b..3636b46 100644
--- a/regain/clustering.py
+++ b/regain/clustering.py
@@ -66,7 +66,8 @@ def graph_k_means(graphs, k, max_iter=10):
     labels_prev = [-1] * len(graphs)
     for iter_ in range(max_iter):
         distances = compute_distances(graphs, repres)
-        normalized_distances = distances / np.max(distances, axis=1)[:, np.newaxis]
+        farthest = np.max(distances, axis=1)[:, np.newaxis]
+        normalized_distances = distances / np.where(farthest > 0, farthest, 1)
         similarities = 1 - normalized_distances
         kernel = similarities.dot(similarities.T)
         labels = np.argmin(distances, axis=1)
-- 
2.43.0


From c94584c06b51caee2f4156b54531f56c430f2dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:28 +0000
Subject: [PATCH 56/86] fix: compute_mean of the missing data graphical lasso
 is a mean, not a sum

---
 regain/covariance/missing_graphical_lasso_.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/covariance/missing_graphical_lasso_.py b/regain/covariance/missing_graphical_lasso_.py
index 571e853..a28ba3b 100644
--- a/regain/covariance/missing_graphical_lasso_.py
+++ b/regain/covariance/missing_graphical_lasso_.py
@@ -76,7 +76,7 @@ def compute_cs(means, K, X):
 def compute_mean(X, cs):
     aux = np.nan_to_num(np.copy(X))
     aux += cs
-    return np.sum(aux, axis=0)
+    return np.mean(aux, axis=0)
 
 
 def missing_graphical_lasso(
-- 
2.43.0


From ebe08c74a515173b7508f3efc76833f66195d68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:28 +0000
Subject: [PATCH 57/86] fix: the history of missing_graphical_lasso records the
 log-likelihood, not a function

---
 regain/covariance/missing_graphical_lasso_.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/covariance/missing_graphical_lasso_.py b/regain/covariance/missing_graphical_lasso_.py
index a28ba3b..dcac3b0 100644
--- a/regain/covariance/missing_graphical_lasso_.py
+++ b/regain/covariance/missing_graphical_lasso_.py
@@ -175,7 +175,7 @@ def missing_graphical_lasso(
         )
         loglik = logl(emp_cov, K)
         diff = old_logl - loglik
-        checks.append(dict(iteration=iter_, log_likelihood=logl, difference=diff))
+        checks.append(dict(iteration=iter_, log_likelihood=loglik, difference=diff))
         if verbose:
             print(
                 "Iter %d: log-likelihood %.4f, difference: %.4f" % (iter_, loglik, diff)
-- 
2.43.0


From 6184e36fea10e0a3d2676e7756372f6223339889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:28 +0000
Subject: [PATCH 58/86] fix: group_lasso accepts partitions whose groups are
 not in increasing order

---
 regain/linear_model/group_lasso_.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/linear_model/group_lasso_.py b/regain/linear_model/group_lasso_.py
index 68a908a..4cc5cc9 100644
--- a/regain/linear_model/group_lasso_.py
+++ b/regain/linear_model/group_lasso_.py
@@ -87,7 +87,7 @@ def group_lasso(
     n_samples, n_features = A.shape
 
     # check valid partition
-    if not np.allclose(flatten(groups), np.arange(n_features)):
+    if not np.array_equal(np.sort(flatten(groups)), np.arange(n_features)):
         raise ValueError(
             "Invalid partition in groups. " "Groups must be non-overlapping and each variables " "must be selected"
         )
-- 
2.43.0


From e72f0f95de212feaf1619a18325690f2caaff036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:09 +0000
Subject: [PATCH 59/86] fix: learning the similarity does not overwrite the
 number of clusters

---
 regain/covariance/kernel_latent_time_graphical_lasso_.py | 5 ++---
 regain/covariance/kernel_time_graphical_lasso_.py        | 5 ++---
 regain/generalized_linear_model/glm_time_ising.py        | 5 ++---
 regain/generalized_linear_model/glm_time_poisson.py      | 5 ++---
 4 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/regain/covariance/kernel_latent_time_graphical_lasso_.py b/regain/covariance/kernel_latent_time_graphical_lasso_.py
index e6cdd7f..62053ab 100644
--- a/regain/covariance/kernel_latent_time_graphical_lasso_.py
+++ b/regain/covariance/kernel_latent_time_graphical_lasso_.py
@@ -756,8 +756,7 @@ class SimilarityLatentTimeGraphicalLasso(KernelLatentTimeGraphicalLasso):
             kernel_psi = np.eye(n_times)
 
             psi, _, _ = check_norm_prox(self.psi)
-            if self.n_clusters is None:
-                self.n_clusters = n_times
+            n_clusters = n_times if self.n_clusters is None else self.n_clusters
             labels_pred_old = None
             for i in range(self.max_iter_ext):
                 # E step - discover best kernel
@@ -770,7 +769,7 @@ class SimilarityLatentTimeGraphicalLasso(KernelLatentTimeGraphicalLasso):
                 # kernel_psi = theta * self.beta
                 kernel_psi = theta
                 labels_pred = AgglomerativeClustering(
-                    n_clusters=self.n_clusters,
+                    n_clusters=n_clusters,
                     affinity="precomputed",
                     linkage="complete",
                 ).fit_predict(kernel_psi)
diff --git a/regain/covariance/kernel_time_graphical_lasso_.py b/regain/covariance/kernel_time_graphical_lasso_.py
index f2be527..07bd0a8 100644
--- a/regain/covariance/kernel_time_graphical_lasso_.py
+++ b/regain/covariance/kernel_time_graphical_lasso_.py
@@ -697,8 +697,7 @@ class SimilarityTimeGraphicalLasso(KernelTimeGraphicalLasso):
             kernel = np.eye(n_times)
 
             psi, _, _ = check_norm_prox(self.psi)
-            if self.n_clusters is None:
-                self.n_clusters = n_times
+            n_clusters = n_times if self.n_clusters is None else self.n_clusters
 
             labels_pred_old = None
             for i in range(self.max_iter_ext):
@@ -721,7 +720,7 @@ class SimilarityTimeGraphicalLasso(KernelTimeGraphicalLasso):
                 kernel = theta
 
                 labels_pred = AgglomerativeClustering(
-                    n_clusters=self.n_clusters,
+                    n_clusters=n_clusters,
                     affinity="precomputed",
                     linkage="complete",
                 ).fit_predict(kernel)
diff --git a/regain/generalized_linear_model/glm_time_ising.py b/regain/generalized_linear_model/glm_time_ising.py
index ae2b573..1987d31 100644
--- a/regain/generalized_linear_model/glm_time_ising.py
+++ b/regain/generalized_linear_model/glm_time_ising.py
@@ -703,8 +703,7 @@ class SimilarityTemporalIsingModel(TemporalIsingModel):
             kernel = np.eye(n_times)
 
             psi, _, _ = check_norm_prox(self.psi)
-            if self.n_clusters is None:
-                self.n_clusters = n_times
+            n_clusters = n_times if self.n_clusters is None else self.n_clusters
             labels_pred_old = 0
             for i in range(self.max_iter_ext):
                 out = _fit_time_ising_model(
@@ -728,7 +727,7 @@ class SimilarityTemporalIsingModel(TemporalIsingModel):
                 theta = precision_similarity(self.precision_, psi)
                 kernel = theta
                 labels_pred = AgglomerativeClustering(
-                    n_clusters=self.n_clusters,
+                    n_clusters=n_clusters,
                     affinity="precomputed",
                     linkage="complete",
                 ).fit_predict(kernel)
diff --git a/regain/generalized_linear_model/glm_time_poisson.py b/regain/generalized_linear_model/glm_time_poisson.py
index 9ea541d..2ffd76b 100644
--- a/regain/generalized_linear_model/glm_time_poisson.py
+++ b/regain/generalized_linear_model/glm_time_poisson.py
@@ -699,14 +699,13 @@ class SimilarityTemporalPoissonModel(TemporalPoissonModel):
             kernel = np.eye(n_times)
 
             psi, _, _ = check_norm_prox(self.psi)
-            if self.n_clusters is None:
-                self.n_clusters = n_times
+            n_clusters = n_times if self.n_clusters is None else self.n_clusters
             labels_pred_old = 0
             for i in range(self.max_iter_ext):
                 theta = precision_similarity(self.precision_, psi)
                 kernel = theta
                 labels_pred = AgglomerativeClustering(
-                    n_clusters=self.n_clusters,
+                    n_clusters=n_clusters,
                     affinity="precomputed",
                     linkage="complete",
                 ).fit_predict(kernel)
-- 
2.43.0


From c8f9e1cdf1b61d60710bb3b14f7ee2c94411ae86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:23 +0000
Subject: [PATCH 60/86] fix: SimilarityTemporalIsingModel does not consume the
 global random state

---
 regain/generalized_linear_model/glm_time_ising.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/regain/generalized_linear_model/glm_time_ising.py b/regain/generalized_linear_model/glm_time_ising.py
index 1987d31..0f37449 100644
--- a/regain/generalized_linear_model/glm_time_ising.py
+++ b/regain/generalized_linear_model/glm_time_ising.py
@@ -695,11 +695,7 @@ class SimilarityTemporalIsingModel(TemporalIsingModel):
         if self.kernel is None:
             # from scipy.optimize import minimize
             # discover best kernel parameter via EM
-            # initialise precision matrices, as warm start
-            self.precision_ = np.random.rand(
-                self.classes_.shape[0], X.shape[1], X.shape[1]
-            )
-            n_times = self.precision_.shape[0]
+            n_times = self.classes_.size
             kernel = np.eye(n_times)
 
             psi, _, _ = check_norm_prox(self.psi)
-- 
2.43.0


From 9fdddc80b2c76666c04b018367ed9d80037edb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:24 +0000
Subject: [PATCH 61/86] fix: fitting BayesianGraphicalLasso does not overwrite
 its default alphas

---
 regain/bayesian/gwishart_inference.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/regain/bayesian/gwishart_inference.py b/regain/bayesian/gwishart_inference.py
index a46e1a7..90a6fa3 100755
--- a/regain/bayesian/gwishart_inference.py
+++ b/regain/bayesian/gwishart_inference.py
@@ -494,13 +494,12 @@ class BayesianGraphicalLasso(GraphicalLasso):
         # Covariance does not make sense for a single feature
         X = check_array(X, ensure_min_features=2, ensure_min_samples=2, estimator=self)
 
-        if self.alphas is None:
-            self.alphas = np.logspace(-2, 0, 20)
+        alphas = np.logspace(-2, 0, 20) if self.alphas is None else self.alphas
 
         self.precision_ = bayesian_graphical_lasso(
             X,
             tol=self.tol,
-            alphas=self.alphas,
+            alphas=alphas,
             n_resampling=self.n_resampling,
             mode=self.mode,
             scoring=self.scoring,
-- 
2.43.0


From ced26232ef370e9bde36da8cacb745971404ed53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:03:27 +0000
Subject: [PATCH 62/86] fix: the similarity of networks that are all equal is
 one, not NaN

---
 regain/covariance/kernel_time_graphical_lasso_.py | 3 ++-
 regain/generalized_linear_model/glm_time_ising.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/regain/covariance/kernel_time_graphical_lasso_.py b/regain/covariance/kernel_time_graphical_lasso_.py
index 07bd0a8..4627e12 100644
--- a/regain/covariance/kernel_time_graphical_lasso_.py
+++ b/regain/covariance/kernel_time_graphical_lasso_.py
@@ -356,7 +356,8 @@ def precision_similarity(K, psi):
         np.fill_diagonal(kernel[:, m:], dist)
 
     kernel -= np.min(kernel)
-    kernel /= np.max(kernel)
+    if np.max(kernel) > 0:
+        kernel /= np.max(kernel)
     # kernel *= -1
     # kernel += 1
     return 1 - kernel  # 1. / (1 + kernel)
diff --git a/regain/generalized_linear_model/glm_time_ising.py b/regain/generalized_linear_model/glm_time_ising.py
index 0f37449..58a791c 100644
--- a/regain/generalized_linear_model/glm_time_ising.py
+++ b/regain/generalized_linear_model/glm_time_ising.py
@@ -572,7 +572,8 @@ def precision_similarity(precision, psi=None):
     distances = squareform(
         [l1_od_norm(t1 - t2) for t1, t2 in combinations(precision, 2)]
     )
-    distances /= np.max(distances)
+    if np.max(distances) > 0:
+        distances /= np.max(distances)
     return 1 - distances
 
 
-- 
2.43.0


From d1d12f2495b57fe76e5700765ad34be602c377ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:19 +0000
Subject: [PATCH 63/86] fix: the Wishart process keeps every sampled scale
 factor, not many times the last

---
 regain/bayesian/wishart_process_.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/bayesian/wishart_process_.py b/regain/bayesian/wishart_process_.py
index 7713dde..5b04312 100644
--- a/regain/bayesian/wishart_process_.py
+++ b/regain/bayesian/wishart_process_.py
@@ -156,7 +156,7 @@ def fit(
         loglikes[i] = current_state.log_likelihood
         lps[i] = theta
         if learn_ell:
-            Ls.append(L__)
+            Ls.append(L__.copy())
     return_list = [samples_u, loglikes, lps]
     if learn_ell:
         return_list.append(Ls)
-- 
2.43.0


From 675490cc3543bae08227dde3cd759097096b02a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:19 +0000
Subject: [PATCH 64/86] fix: the Wishart process has enough degrees of freedom
 for regular covariances, whose likelihood is not zero

---
 regain/bayesian/wishart_process_.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/bayesian/wishart_process_.py b/regain/bayesian/wishart_process_.py
index 5b04312..97d904e 100644
--- a/regain/bayesian/wishart_process_.py
+++ b/regain/bayesian/wishart_process_.py
@@ -302,7 +302,7 @@ class WishartProcess(TimeGraphicalLasso):
             kern = _periodic_kernel
 
         self.likelihood = partial(t_mvn_logpdf, X_center)
-        self.nu_ = 1
+        self.nu_ = n_dimensions + 1
         L = None
         if not self.learn_ell:
             cov = empirical_covariance(X)
-- 
2.43.0


From b4a9f606be9027f68f965692e1e585a0182f958b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:19 +0000
Subject: [PATCH 65/86] fix: the Wishart process scores data with any number of
 samples per time

---
 regain/bayesian/wishart_process_.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/regain/bayesian/wishart_process_.py b/regain/bayesian/wishart_process_.py
index 97d904e..debe5c8 100644
--- a/regain/bayesian/wishart_process_.py
+++ b/regain/bayesian/wishart_process_.py
@@ -387,8 +387,8 @@ class WishartProcess(TimeGraphicalLasso):
             estimator=self,
         )
 
-        X_center = np.array(
-            [X[y == cl] - self.location_[i] for i, cl in enumerate(self.classes_)]
-        )
+        X_center = [
+            X[y == cl] - self.location_[i] for i, cl in enumerate(self.classes_)
+        ]
         logp = t_mvn_logpdf(X_center, self.D_map)
         return logp
-- 
2.43.0


From f8ec06b1157cd1b27cf20a6c19b8f3788a855c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:19 +0000
Subject: [PATCH 66/86] fix: the Wishart process keeps its constructor
 parameters, so that it can be cloned

---
 regain/bayesian/wishart_process_.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/regain/bayesian/wishart_process_.py b/regain/bayesian/wishart_process_.py
index debe5c8..26af8b3 100644
--- a/regain/bayesian/wishart_process_.py
+++ b/regain/bayesian/wishart_process_.py
@@ -246,12 +246,12 @@ class WishartProcess(TimeGraphicalLasso):
         # parameter initialisation
         self.theta = theta  # Inverse width
         self.var_prop = var_prop
-        # self.mu_prior = mu_prior
-        # self.var_prior = var_prior
+        self.mu_prior = mu_prior
+        self.var_prior = var_prior
 
         self.var_Lprop = var_Lprop
-        # self.mu_Lprior = mu_Lprior
-        # self.var_Lprior = var_Lprior
+        self.mu_Lprior = mu_Lprior
+        self.var_Lprior = var_Lprior
         self.kernel = kernel
         self.learn_ell = learn_ell
 
-- 
2.43.0


From c1c6942557091d87748a47f3691c580da1f73978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:16 +0000
Subject: [PATCH 67/86] fix: load_finance returned nothing and looked for a
 missing sectors file

---
 regain/data/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/regain/data/base.py b/regain/data/base.py
index c1f4d71..1e5427f 100644
--- a/regain/data/base.py
+++ b/regain/data/base.py
@@ -40,5 +40,7 @@ def load_finance(condensed=True, sectors=False):
         data = pd.read_csv(filename, index_col=0)
 
     if sectors:
-        filename = os.path.join(os.path.dirname(__file__), "finance/industries_sector.csv")
+        filename = os.path.join(os.path.dirname(__file__), "finance/industries_sector.txt")
         sectors = pd.read_csv(filename, index_col=0)
+        return data, sectors
+    return data
-- 
2.43.0


From 369066c401311303bffeaad473374964d93eef76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:16 +0000
Subject: [PATCH 68/86] fix: foods listed twice in a group added columns to the
 group memberships

---
 regain/data/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/data/base.py b/regain/data/base.py
index 1e5427f..5d754f9 100644
--- a/regain/data/base.py
+++ b/regain/data/base.py
@@ -20,7 +20,7 @@ def load_food_search_trends(groups=False):
         connections = pd.DataFrame(connections, index=list(groups_dict.keys()), columns=data.columns)
 
         for g, v in groups_dict.items():
-            connections.loc[g, v] = 1
+            connections.loc[g, list(dict.fromkeys(v))] = 1
 
         return data, connections, groups_dict
     else:
-- 
2.43.0


From 528c740760369eedd7d32635800191ec9b36be06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:16 +0000
Subject: [PATCH 69/86] fix: the graph plot used a networkx function that no
 longer exists

---
 regain/plotting/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/plotting/graph.py b/regain/plotting/graph.py
index d249458..dddcb97 100644
--- a/regain/plotting/graph.py
+++ b/regain/plotting/graph.py
@@ -41,7 +41,7 @@ def plot_graph_with_latent_variables(
     if ax is None:
         f, ax = plt.subplots(1, 1)
 
-    G = nx.from_numpy_matrix(adjacency_matrix)
+    G = nx.from_numpy_array(adjacency_matrix)
     pos = nx.circular_layout(G, scale=0.1)
 
     if n_latents > 0:
-- 
2.43.0


From d73c6594a5bc628522df57006252987c239e2b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:16 +0000
Subject: [PATCH 70/86] fix: saving the plot of a spatial graph always failed

---
 regain/plotting/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/plotting/graph.py b/regain/plotting/graph.py
index dddcb97..a423b01 100644
--- a/regain/plotting/graph.py
+++ b/regain/plotting/graph.py
@@ -78,5 +78,5 @@ def plot_meinshausen_yuan(locations, theta, figsize=(10, 10), file=None):
     for i, j in zip(nz[0], nz[1]):
         plt.plot(np.array(locations)[[i, j], 0], np.array(locations)[[i, j], 1])
     if file is not None:
-        plt.savefig(file, transparency=True, dpi=200, bbox_inches="tight")
+        plt.savefig(file, transparent=True, dpi=200, bbox_inches="tight")
     plt.show()
-- 
2.43.0


From 56a4292426776b4233f57829fe2fef6bc59c96bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:16 +0000
Subject: [PATCH 71/86] fix: plotly figures used properties that no longer
 exist

---
 regain/plotting/plotly.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/regain/plotting/plotly.py b/regain/plotting/plotly.py
index 33f2bfc..3d30aad 100644
--- a/regain/plotting/plotly.py
+++ b/regain/plotting/plotly.py
@@ -214,8 +214,7 @@ def plot_circular(G, labels=None, dist_text=1.2, cmap="Blues", color_nodes=(), t
 
     axis = dict(showgrid=False, zeroline=False, showticklabels=False)
     layout = go.Layout(
-        title=title,
-        titlefont=dict(size=16),
+        title=dict(text=title, font=dict(size=16)),
         showlegend=False,
         hovermode="closest",
         margin=dict(b=40, l=5, r=5, t=40),
@@ -267,7 +266,7 @@ def plot_circular(G, labels=None, dist_text=1.2, cmap="Blues", color_nodes=(), t
             reversescale=True,
             color=color_nodes,
             size=20,
-            colorbar=dict(thickness=15, title="Node Connections", xanchor="left", titleside="right"),
+            colorbar=dict(thickness=15, title=dict(text="Node Connections", side="right"), xanchor="left"),
             line=dict(width=2),
         ),
     )
@@ -304,7 +303,7 @@ def plot_network(G, labels, with_weights=True, dim=2, title=None, cmap="Blues",
         reversescale=True,
         color=degrees,
         size=2,
-        colorbar=dict(thickness=15, title="Node Connections", xanchor="left", titleside="right"),
+        colorbar=dict(thickness=15, title=dict(text="Node Connections", side="right"), xanchor="left"),
         line=dict(width=1),
     )
 
-- 
2.43.0


From 5701278ef9a5a292b6ed6018a6e670abaf6bc194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:16 +0000
Subject: [PATCH 72/86] fix: plot_cov_2d ignored npts and refused a list of
 means

---
 regain/plotting/covariance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regain/plotting/covariance.py b/regain/plotting/covariance.py
index 6c62aea..d8318ae 100644
--- a/regain/plotting/covariance.py
+++ b/regain/plotting/covariance.py
@@ -52,13 +52,13 @@ def plot_cov_2d(means, cov, sdwidth=1.0, npts=50, ax=None, c=None):
     c : str, optional
         Color of the plot.
     """
-    tt = np.linspace(0, 2 * np.pi, 100)
+    tt = np.linspace(0, 2 * np.pi, npts)
     ap = np.array([np.cos(tt), np.sin(tt)])
 
     d, v = linalg.eigh(cov)
     d = sdwidth * np.sqrt(d)
 
-    bp = (v.dot(np.diag(d)).dot(ap)) + means.ravel()[:, None]
+    bp = (v.dot(np.diag(d)).dot(ap)) + np.ravel(means)[:, None]
     plot = plt.plot if ax is None else ax.plot
     plot(bp[0], bp[1], c=c)
     return cov[0, 1]  # return their correlation
-- 
2.43.0


From eff172dbbc73e49cef7a121fe86d6fc48d746cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:57 +0000
Subject: [PATCH 73/86] fix: the curves of a single network could not be
 plotted

---
 regain/plotting/results.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/regain/plotting/results.py b/regain/plotting/results.py
index ed54ac0..4640eaf 100644
--- a/regain/plotting/results.py
+++ b/regain/plotting/results.py
@@ -46,12 +46,8 @@ def plot_roc_curves(true, preds, ax=None, fontsize=15):
         fig, ax = plt.subplots(figsize=(15, 10))
     ax.plot([0, 1], [0, 1], linestyle="--", lw=2, color="r", label="Chance", alpha=0.8)
 
-    if true.ndim != 2:
-        true = (true != 0).astype(int).ravel()
-        preds_new = []
-        for p in preds:
-            preds_new.append(p.ravel())
-        preds = preds_new
+    true = (true != 0).astype(int).ravel()
+    preds = [p.ravel() for p in preds]
 
     for i, p in enumerate(preds):
         fpr, tpr, thresholds = roc_curve(true, p)
@@ -130,12 +126,8 @@ def plot_curve(
     curve_func = roc_curve if mode == "roc" else precision_recall_curve
     for c, (key, preds) in enumerate(predictions.items()):
         if len(preds) == 1:
-            if true.ndim != 2:
-                true = (~np.isclose(true, 0, rtol=1e-7)).astype(int).ravel()
-                preds_new = []
-                for p in preds:
-                    preds_new.append(p.ravel())
-                preds = preds_new
+            true = (~np.isclose(true, 0, rtol=1e-7)).astype(int).ravel()
+            preds = [p.ravel() for p in preds]
             fpr, tpr, thresholds = curve_func(true, preds[0])
             kwargs = dict(lw=1, color=colors[c] if colors is not None else None)
             if mode == "roc":
-- 
2.43.0


From 2739cb14a91bbe29bce866e060be54f25c44618f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:57 +0000
Subject: [PATCH 74/86] fix: the deprecated curve plots could not be called

---
 regain/plotting/results.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regain/plotting/results.py b/regain/plotting/results.py
index 4640eaf..12efb69 100644
--- a/regain/plotting/results.py
+++ b/regain/plotting/results.py
@@ -207,7 +207,7 @@ def plot_curve(
     plt.show()
 
 
-@deprecated
+@deprecated()
 def plot_roc_comparison(
     true,
     predictions,
@@ -227,7 +227,7 @@ def plot_roc_comparison(
     )
 
 
-@deprecated
+@deprecated()
 def plot_precision_recall_comparison(
     true,
     predictions,
-- 
2.43.0


From 54da15d507bcbd7e399617abd80da6811f180af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:57 +0000
Subject: [PATCH 75/86] fix: average precision-recall curves interpolated over
 unsorted precisions, and the axes were labelled the wrong way round

---
 regain/plotting/results.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/regain/plotting/results.py b/regain/plotting/results.py
index 12efb69..df48d82 100644
--- a/regain/plotting/results.py
+++ b/regain/plotting/results.py
@@ -165,7 +165,10 @@ def plot_curve(
                 else:
                     t = true
                 fpr, tpr, thresholds = curve_func(t, p)
-                tprs.append(interp(mean_fpr, fpr, tpr))
+                if mode == "roc":
+                    tprs.append(interp(mean_fpr, fpr, tpr))
+                else:  # the precision at each recall, which decreases
+                    tprs.append(interp(mean_fpr, tpr[::-1], fpr[::-1]))
                 tprs[-1][0] = int(mode != "roc")
                 roc_auc = auc(fpr, tpr) if mode == "roc" else auc(tpr, fpr)
                 aucs.append(roc_auc)
@@ -174,7 +177,8 @@ def plot_curve(
                 #     color=colors[c] if colors is not None else None, alpha=0.3)
 
             mean_tpr = np.mean(tprs, axis=0)
-            mean_tpr[-1] = int(mode == "roc")
+            if mode == "roc":
+                mean_tpr[-1] = 1.0
             mean_auc = auc(mean_fpr, mean_tpr)
             std_auc = np.std(aucs)
             ax.plot(
@@ -197,8 +201,8 @@ def plot_curve(
         ax.set_xlabel("False Positive Rate")
         ax.set_ylabel("True Positive Rate")
     else:
-        ax.set_xlabel("Precision")
-        ax.set_ylabel("Recall")
+        ax.set_xlabel("Recall")
+        ax.set_ylabel("Precision")
 
     ax.legend(loc="lower right")
     ax.grid()
-- 
2.43.0


From 6f5ad51bb227ed5bbcde4665212dabad9855eda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:47 +0000
Subject: [PATCH 76/86] fix: the ellipse of a singular covariance could have an
 undefined axis

---
 regain/plotting/covariance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/plotting/covariance.py b/regain/plotting/covariance.py
index d8318ae..534096b 100644
--- a/regain/plotting/covariance.py
+++ b/regain/plotting/covariance.py
@@ -94,7 +94,7 @@ def plot_cov_ellipse(pos, cov, nstd=2, ax=None, **kwargs):
     theta = np.degrees(np.arctan2(*vecs[:, 0][::-1]))
 
     # Width and height are "full" widths, not radius
-    width, height = 2 * nstd * np.sqrt(vals)
+    width, height = 2 * nstd * np.sqrt(np.maximum(vals, 0))
 
     if width == 0:
         width += 0.1
-- 
2.43.0


From 3ed5252e40d8355f6ed002633bc1efe194a35f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:40 +0000
Subject: [PATCH 77/86] fix: periodic precisions were only weakly diagonally
 dominant, so they could be singular

---
 regain/datasets/gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/datasets/gaussian.py b/regain/datasets/gaussian.py
index ca96a38..45b1a71 100644
--- a/regain/datasets/gaussian.py
+++ b/regain/datasets/gaussian.py
@@ -501,7 +501,7 @@ def make_sin(
 
     Y = np.array(
         [
-            squareform(y[:, j]) + np.diag(np.sum(squareform(y[:, j]), axis=1))
+            squareform(y[:, j]) + np.diag(np.sum(squareform(y[:, j]), axis=1) + 0.1)
             for j in range(y.shape[1])
         ]
     )
-- 
2.43.0


From a3f6f5f97053363a63ec095e8636a3b2e4a037cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:42 +0000
Subject: [PATCH 78/86] fix: normalising periodic precisions had no effect

---
 regain/datasets/gaussian.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/regain/datasets/gaussian.py b/regain/datasets/gaussian.py
index 45b1a71..28645ff 100644
--- a/regain/datasets/gaussian.py
+++ b/regain/datasets/gaussian.py
@@ -507,7 +507,8 @@ def make_sin(
     )
 
     if normalize:
-        map(normalize_matrix, Y)  # in place
+        for precision in Y:
+            normalize_matrix(precision)  # in place
     # assert positive_definite(Y)
     ensure_posdef(Y)
 
-- 
2.43.0


From 300fadeb1e3553800620270e493e1f3f3cdce542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:48 +0000
Subject: [PATCH 79/86] fix: stability selection runs with current scikit-learn

The constructor passed the removed iid option, the scorers were unpacked from an
old return value, the results of the fits are dictionaries, np.int is gone and the
default error_score was refused; documented default (nan) used instead.
---
 .../model_selection/stability_optimization.py | 39 ++++++++-----------
 1 file changed, 16 insertions(+), 23 deletions(-)

diff --git a/regain/model_selection/stability_optimization.py b/regain/model_selection/stability_optimization.py
index 096dcf0..232ddde 100644
--- a/regain/model_selection/stability_optimization.py
+++ b/regain/model_selection/stability_optimization.py
@@ -41,6 +41,7 @@ from numpy.ma import MaskedArray
 from scipy.special import binom
 from scipy.stats import rankdata
 from sklearn.base import clone, is_classifier
+from sklearn.metrics import check_scoring
 from sklearn.metrics._scorer import _check_multimetric_scoring
 from sklearn.model_selection import GridSearchCV, StratifiedShuffleSplit
 from sklearn.model_selection._split import check_cv
@@ -280,7 +281,7 @@ class GraphicalModelStabilitySelection(GridSearchCV):
         cv="warn",
         verbose=0,
         pre_dispatch="2*n_jobs",
-        error_score="raise-deprecating",
+        error_score=np.nan,
         mode="stars",
         return_train_score=False,
         n_repetitions=10,
@@ -290,7 +291,6 @@ class GraphicalModelStabilitySelection(GridSearchCV):
             estimator=estimator,
             scoring=scoring,
             n_jobs=n_jobs,
-            iid=iid,
             refit=refit,
             cv=StratifiedShuffleSplit(train_size=sampling_size, n_splits=n_repetitions),
             verbose=verbose,
@@ -299,6 +299,7 @@ class GraphicalModelStabilitySelection(GridSearchCV):
             return_train_score=return_train_score,
             param_grid=param_grid,
         )
+        self.iid = iid
         self.mode = mode
         self.n_repetitions = n_repetitions
         self.sampling_size = sampling_size
@@ -343,9 +344,11 @@ class GraphicalModelStabilitySelection(GridSearchCV):
             y = np.ones(X.shape[0])
         cv = check_cv(self.cv, y, classifier=is_classifier(estimator))
 
-        scorers, self.multimetric_ = _check_multimetric_scoring(
-            self.estimator, scoring=self.scoring
-        )
+        self.multimetric_ = isinstance(self.scoring, (list, tuple, set, dict))
+        if self.multimetric_:
+            scorers = _check_multimetric_scoring(self.estimator, self.scoring)
+        else:
+            scorers = {"score": check_scoring(self.estimator, self.scoring)}
 
         if self.multimetric_:
             if (
@@ -489,24 +492,14 @@ class GraphicalModelStabilitySelection(GridSearchCV):
     def _format_results(self, candidate_params, scorers, n_splits, out):
         n_candidates = len(candidate_params)
 
-        # if one choose to see train score, "out" will contain train score info
+        # "out" is a list of dictionaries, one per fit
+        test_score_dicts = [o["test_scores"] for o in out]
         if self.return_train_score:
-            (
-                train_score_dicts,
-                test_score_dicts,
-                test_sample_counts,
-                fit_time,
-                score_time,
-                estimators,
-            ) = zip(*out)
-        else:
-            (
-                test_score_dicts,
-                test_sample_counts,
-                fit_time,
-                score_time,
-                estimators,
-            ) = zip(*out)
+            train_score_dicts = [o["train_scores"] for o in out]
+        test_sample_counts = [o["n_test_samples"] for o in out]
+        fit_time = [o["fit_time"] for o in out]
+        score_time = [o["score_time"] for o in out]
+        estimators = [o["estimator"] for o in out]
 
         # test_score_dicts and train_score dicts are lists of dictionaries and
         # we make them into dict of lists
@@ -568,7 +561,7 @@ class GraphicalModelStabilitySelection(GridSearchCV):
         results["params"] = candidate_params
 
         # NOTE test_sample counts (weights) remain the same for all candidates
-        test_sample_counts = np.array(test_sample_counts[:n_splits], dtype=np.int)
+        test_sample_counts = np.array(test_sample_counts[:n_splits], dtype=int)
 
         if self.iid != "deprecated":
             warnings.warn(
-- 
2.43.0


From 8e063ae22968c23c2289142a8943ac8144bf4133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:48 +0000
Subject: [PATCH 80/86] fix: monotonised instability of a model includes its
 own instability

The running maximum stopped one candidate short, so a candidate far less stable
than the threshold could be selected.
---
 regain/model_selection/stability_optimization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regain/model_selection/stability_optimization.py b/regain/model_selection/stability_optimization.py
index 232ddde..ff5f75a 100644
--- a/regain/model_selection/stability_optimization.py
+++ b/regain/model_selection/stability_optimization.py
@@ -592,7 +592,7 @@ class GraphicalModelStabilitySelection(GridSearchCV):
         # from high sparsity to low
 
         monotonized_instabilities = [array_means[0]] + [
-            np.max(array_means[:i]) for i in range(1, array_means.size)
+            np.max(array_means[: i + 1]) for i in range(1, array_means.size)
         ]
         monotonized_instabilities = np.array(monotonized_instabilities)
         self.monotonized_instabilities = np.copy(monotonized_instabilities)
@@ -605,7 +605,7 @@ class GraphicalModelStabilitySelection(GridSearchCV):
 
             upper_bounds = np.array([upper_bound(e_split) for e_split in estimators])
             upper_bounds = [upper_bounds[0]] + [
-                np.max(upper_bounds[:i]) for i in range(1, upper_bounds.size)
+                np.max(upper_bounds[: i + 1]) for i in range(1, upper_bounds.size)
             ]
             self.upper_bounds = np.array(upper_bounds)
             lb = np.where(np.array(monotonized_instabilities) <= 0.05)[0]
-- 
2.43.0


From 2d72cbd0ed3a7d52a2529ff9f50899ef5f86f79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:48 +0000
Subject: [PATCH 81/86] fix: stability selection sizes its samples from the
 data of each fit

fit stored the size it derived, so a second fit on other data reused it.
---
 .../model_selection/stability_optimization.py | 22 +++++++++----------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/regain/model_selection/stability_optimization.py b/regain/model_selection/stability_optimization.py
index ff5f75a..756765b 100644
--- a/regain/model_selection/stability_optimization.py
+++ b/regain/model_selection/stability_optimization.py
@@ -323,25 +323,23 @@ class GraphicalModelStabilitySelection(GridSearchCV):
         """
         estimator = self.estimator
 
-        if self.sampling_size is None:
-            self.sampling_size = int(min(10 * np.sqrt(X.shape[0]), X.shape[0] - 10))
-            self.cv = StratifiedShuffleSplit(
-                train_size=self.sampling_size, n_splits=self.n_repetitions
-            )
+        sampling_size = self.sampling_size
+        if sampling_size is None:
+            sampling_size = int(min(10 * np.sqrt(X.shape[0]), X.shape[0] - 10))
         if y is not None:
             n_classes = np.unique(y).shape[0]
-            if self.sampling_size % n_classes != 0:
+            if sampling_size % n_classes != 0:
                 warnings.warn(
                     "Changing sampling size, divisible for the " "number of classes."
                 )
-                self.sampling_size = (self.sampling_size // n_classes) * n_classes
-                self.cv = StratifiedShuffleSplit(
-                    n_splits=self.n_repetitions,
-                    train_size=self.sampling_size,
-                    test_size=X.shape[0] - self.sampling_size,
-                )
+                sampling_size = (sampling_size // n_classes) * n_classes
         else:
             y = np.ones(X.shape[0])
+        self.cv = StratifiedShuffleSplit(
+            n_splits=self.n_repetitions,
+            train_size=sampling_size,
+            test_size=X.shape[0] - sampling_size,
+        )
         cv = check_cv(self.cv, y, classifier=is_classifier(estimator))
 
         self.multimetric_ = isinstance(self.scoring, (list, tuple, set, dict))
-- 
2.43.0


From 6bb60b0d4e238c0818aa3abc89ed552dacd7df6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:46 +0000
Subject: [PATCH 82/86] fix: kernel latent time graphical lasso reported
 convergence when its diverging iterates overflowed

---
 regain/covariance/kernel_latent_time_graphical_lasso_.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/regain/covariance/kernel_latent_time_graphical_lasso_.py b/regain/covariance/kernel_latent_time_graphical_lasso_.py
index 62053ab..b893ca7 100644
--- a/regain/covariance/kernel_latent_time_graphical_lasso_.py
+++ b/regain/covariance/kernel_latent_time_graphical_lasso_.py
@@ -366,6 +366,11 @@ def kernel_latent_time_graphical_lasso(
             print(check)
 
         checks.append(check)
+        if not np.isfinite(check.e_pri + check.e_dual):
+            # diverging iterates overflow the thresholds: not a convergence
+            warnings.warn("Objective did not converge.")
+            break
+
         if check.rnorm <= check.e_pri and check.snorm <= check.e_dual:
             break
 
-- 
2.43.0


From 3c6fc7df543a18d2ef4b26807e8dc0f947b7ded0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:06 +0000
Subject: [PATCH 83/86] fix: latent time graphical lasso reported convergence
 when its diverging iterates overflowed

---
 regain/covariance/latent_time_graphical_lasso_.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/regain/covariance/latent_time_graphical_lasso_.py b/regain/covariance/latent_time_graphical_lasso_.py
index 4510863..331f9ef 100644
--- a/regain/covariance/latent_time_graphical_lasso_.py
+++ b/regain/covariance/latent_time_graphical_lasso_.py
@@ -326,6 +326,11 @@ def latent_time_graphical_lasso(
             print(check)
 
         checks.append(check)
+        if not np.isfinite(check.e_pri + check.e_dual):
+            # diverging iterates overflow the thresholds: not a convergence
+            warnings.warn("Objective did not converge.")
+            break
+
         if check.rnorm <= check.e_pri and check.snorm <= check.e_dual:
             break
 
-- 
2.43.0


From feeb6c27e925ec88b72769fa93263387022ff453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:04 +0000
Subject: [PATCH 84/86] fix: latent time matrix decomposition reported
 convergence when its diverging iterates overflowed

---
 regain/covariance/latent_time_matrix_decomposition.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/regain/covariance/latent_time_matrix_decomposition.py b/regain/covariance/latent_time_matrix_decomposition.py
index d5ed8c3..8d1b708 100644
--- a/regain/covariance/latent_time_matrix_decomposition.py
+++ b/regain/covariance/latent_time_matrix_decomposition.py
@@ -296,6 +296,11 @@ def latent_time_matrix_decomposition(
             print(check)
 
         checks.append(check)
+        if not np.isfinite(check.e_pri + check.e_dual):
+            # diverging iterates overflow the thresholds: not a convergence
+            warnings.warn("Objective did not converge.")
+            break
+
         if check.rnorm <= check.e_pri and check.snorm <= check.e_dual:
             break
 
-- 
2.43.0


From 7a27b14c5f6c47dfacc22aef3c75dfa7c5144231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:13 +0000
Subject: [PATCH 85/86] fix: kernel time graphical lasso reported convergence
 when its diverging iterates overflowed

---
 regain/covariance/kernel_time_graphical_lasso_.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/regain/covariance/kernel_time_graphical_lasso_.py b/regain/covariance/kernel_time_graphical_lasso_.py
index 4627e12..dd02141 100644
--- a/regain/covariance/kernel_time_graphical_lasso_.py
+++ b/regain/covariance/kernel_time_graphical_lasso_.py
@@ -290,6 +290,11 @@ def kernel_time_graphical_lasso(
             if abs(check.obj - stop_at) / abs(stop_at) < stop_when:
                 break
 
+        if not np.isfinite(check.e_pri + check.e_dual):
+            # diverging iterates overflow the thresholds: not a convergence
+            warnings.warn("Objective did not converge.")
+            break
+
         if check.rnorm <= check.e_pri and check.snorm <= check.e_dual:
             break
 
-- 
2.43.0


From c4cf6e7b72180ece8f4292766432888096d9e439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:13 +0000
Subject: [PATCH 86/86] fix: time graphical lasso reported convergence when its
 diverging iterates overflowed

---
 regain/covariance/time_graphical_lasso_.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/regain/covariance/time_graphical_lasso_.py b/regain/covariance/time_graphical_lasso_.py
index 23010b1..950ff95 100644
--- a/regain/covariance/time_graphical_lasso_.py
+++ b/regain/covariance/time_graphical_lasso_.py
@@ -276,6 +276,11 @@ def time_graphical_lasso(
             if abs(check.obj - stop_at) / abs(stop_at) < stop_when:
                 break
 
+        if not np.isfinite(check.e_pri + check.e_dual):
+            # diverging iterates overflow the thresholds: not a convergence
+            warnings.warn("Objective did not converge.")
+            break
+
         if check.rnorm <= check.e_pri and check.snorm <= check.e_dual:
             break
 
-- 
2.43.0

