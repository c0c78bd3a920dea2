From e9b793e0bcd2e0eab950626457f1804e8e67159f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:10 +0000
Subject: [PATCH 01/64] fix: reshape z when an H override is passed to
 KalmanFilter.update

---
 filterpy/kalman/kalman_filter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index 994b596..003667e 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -527,6 +527,8 @@ class KalmanFilter(object):
         if H is None:
             z = reshape_z(z, self.dim_z, self.x.ndim)
             H = self.H
+        else:
+            z = reshape_z(z, H.shape[0], self.x.ndim)
 
         # y = z - Hx
         # error (residual) between measurement and prediction
@@ -718,6 +720,8 @@ class KalmanFilter(object):
         if H is None:
             z = reshape_z(z, self.dim_z, self.x.ndim)
             H = self.H
+        else:
+            z = reshape_z(z, H.shape[0], self.x.ndim)
 
         # handle special case: if z is in form [[z]] but x is not a column
         # vector dimensions will not match
-- 
2.43.0


From b9a070d5b5ca7de5f700953f856e0d6a1f91b3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:10 +0000
Subject: [PATCH 02/64] fix: KalmanFilter batch_filter accepts None mixed with
 vector measurements

---
 filterpy/kalman/kalman_filter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index 003667e..7004719 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -941,7 +941,7 @@ class KalmanFilter(object):
         """
 
         #pylint: disable=too-many-statements
-        n = np.size(zs, 0)
+        n = len(zs)
         if Fs is None:
             Fs = [self.F] * n
         if Qs is None:
@@ -1745,7 +1745,7 @@ def batch_filter(x, P, zs, Fs, Qs, Hs, Rs, Bs=None, us=None,
 
     """
 
-    n = np.size(zs, 0)
+    n = len(zs)
     dim_x = x.shape[0]
 
     # mean estimates from Kalman Filter
-- 
2.43.0


From b9c33e15536bec69861795a2966bc1c1aa5bb5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:10 +0000
Subject: [PATCH 03/64] fix: KalmanFilter with B but without u broadcast x to
 the wrong shape

---
 filterpy/kalman/kalman_filter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index 7004719..923d997 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -562,7 +562,7 @@ class KalmanFilter(object):
         self.x_post = self.x.copy()
         self.P_post = self.P.copy()
 
-    def predict_steadystate(self, u=0, B=None):
+    def predict_steadystate(self, u=None, B=None):
         """
         Predict state (prior) using the Kalman filter state propagation
         equations. Only x is updated, P is left unchanged. See
@@ -585,7 +585,7 @@ class KalmanFilter(object):
             B = self.B
 
         # x = Fx + Bu
-        if B is not None:
+        if B is not None and u is not None:
             self.x = dot(self.F, self.x) + dot(B, u)
         else:
             self.x = dot(self.F, self.x)
@@ -953,7 +953,7 @@ class KalmanFilter(object):
         if Bs is None:
             Bs = [self.B] * n
         if us is None:
-            us = [0] * n
+            us = [None] * n
 
         # mean estimates from Kalman Filter
         if self.x.ndim == 1:
-- 
2.43.0


From b606d9c4dd7a4630ed4deb0c8a002e4021c4975d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:10 +0000
Subject: [PATCH 04/64] fix: KalmanFilter.update_sequential overwrote the
 caller's x array

---
 filterpy/kalman/kalman_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index 923d997..a7fe56b 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -817,7 +817,7 @@ class KalmanFilter(object):
 
         # x = x + K_i @ y_i
         # update state estimation with residual scaled by the kalman gain
-        self.x += dot(K_i, y_i)
+        self.x = self.x + dot(K_i, y_i)
 
         # compute the posterior covariance
         self.P = dot(dot(I_KH, self.P), I_KH.T) + dot(dot(K_i, R_i), K_i.T)
-- 
2.43.0


From d8e38bf9eb0f7cc5946b7280d2050fd19cec4875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:10 +0000
Subject: [PATCH 05/64] fix: procedural update functions accept float x as
 documented

---
 filterpy/kalman/kalman_filter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index a7fe56b..efbc766 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -1475,7 +1475,7 @@ def update(x, P, z, R, H=None, return_all=False):
         H = np.array([H])
 
     Hx = np.atleast_1d(dot(H, x))
-    z = reshape_z(z, Hx.shape[0], x.ndim)
+    z = reshape_z(z, Hx.shape[0], np.ndim(x))
 
     # error (residual) between measurement and prediction
     y = z - Hx
@@ -1563,7 +1563,7 @@ def update_steadystate(x, z, K, H=None):
         H = np.array([H])
 
     Hx = np.atleast_1d(dot(H, x))
-    z = reshape_z(z, Hx.shape[0], x.ndim)
+    z = reshape_z(z, Hx.shape[0], np.ndim(x))
 
     # error (residual) between measurement and prediction
     y = z - Hx
-- 
2.43.0


From 26ed3074d70607ceddbc1873b75bafc09af8b106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:10 +0000
Subject: [PATCH 06/64] fix: procedural update() log-likelihood is that of the
 innovation

---
 filterpy/kalman/kalman_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index efbc766..c40c700 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -1507,7 +1507,7 @@ def update(x, P, z, R, H=None, return_all=False):
 
     if return_all:
         # compute log likelihood
-        log_likelihood = logpdf(z, dot(H, x), S)
+        log_likelihood = logpdf(x=y, cov=S)
         return x, P, y, K, S, log_likelihood
     return x, P
 
-- 
2.43.0


From a71d38d0ec3a70ad696827878b3f26a0ec2c45d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:10 +0000
Subject: [PATCH 07/64] fix: procedural rts_smoother used the wrong step's F
 and Q

---
 filterpy/kalman/kalman_filter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index c40c700..da211c4 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -1852,11 +1852,11 @@ def rts_smoother(Xs, Ps, Fs, Qs):
     x, P, pP = Xs.copy(), Ps.copy(), Ps.copy()
 
     for k in range(n-2, -1, -1):
-        pP[k] = dot(dot(Fs[k], P[k]), Fs[k].T) + Qs[k]
+        pP[k] = dot(dot(Fs[k+1], P[k]), Fs[k+1].T) + Qs[k+1]
 
         #pylint: disable=bad-whitespace
-        K[k]  = dot(dot(P[k], Fs[k].T), linalg.inv(pP[k]))
-        x[k] += dot(K[k], x[k+1] - dot(Fs[k], x[k]))
+        K[k]  = dot(dot(P[k], Fs[k+1].T), linalg.inv(pP[k]))
+        x[k] += dot(K[k], x[k+1] - dot(Fs[k+1], x[k]))
         P[k] += dot(dot(K[k], P[k+1] - pP[k]), K[k].T)
 
     return (x, P, K, pP)
-- 
2.43.0


From 9c8e61d9e97b248259087743bcc35566e071762b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:12 +0000
Subject: [PATCH 08/64] fix: EKF predict_update linearizes at the predicted
 state, records priors, accepts z=None

---
 filterpy/kalman/EKF.py | 51 ++----------------------------------------
 1 file changed, 2 insertions(+), 49 deletions(-)

diff --git a/filterpy/kalman/EKF.py b/filterpy/kalman/EKF.py
index 5e83aec..3ed5640 100644
--- a/filterpy/kalman/EKF.py
+++ b/filterpy/kalman/EKF.py
@@ -201,55 +201,8 @@ class ExtendedKalmanFilter(object):
         u : np.array or scalar
             optional control vector input to the filter.
         """
-        #pylint: disable=too-many-locals
-
-        if not isinstance(args, tuple):
-            args = (args,)
-
-        if not isinstance(hx_args, tuple):
-            hx_args = (hx_args,)
-
-        if np.isscalar(z) and self.dim_z == 1:
-            z = np.asarray([z], float)
-
-        F = self.F
-        B = self.B
-        P = self.P
-        Q = self.Q
-        R = self.R
-        x = self.x
-
-        H = HJacobian(x, *args)
-
-        # predict step
-        x = dot(F, x) + dot(B, u)
-        P = dot(F, P).dot(F.T) + Q
-
-        # save prior
-        self.x_prior = np.copy(self.x)
-        self.P_prior = np.copy(self.P)
-
-        # update step
-        PHT = dot(P, H.T)
-        self.S = dot(H, PHT) + R
-        self.SI = linalg.inv(self.S)
-        self.K = dot(PHT, self.SI)
-
-        self.y = z - Hx(x, *hx_args)
-        self.x = x + dot(self.K, self.y)
-
-        I_KH = self._I - dot(self.K, H)
-        self.P = dot(I_KH, P).dot(I_KH.T) + dot(self.K, R).dot(self.K.T)
-
-        # save measurement and posterior state
-        self.z = deepcopy(z)
-        self.x_post = self.x.copy()
-        self.P_post = self.P.copy()
-
-        # set to None to force recompute
-        self._log_likelihood = None
-        self._likelihood = None
-        self._mahalanobis = None
+        self.predict(u)
+        self.update(z, HJacobian, Hx, args=args, hx_args=hx_args)
 
     def update(self, z, HJacobian, Hx, R=None, args=(), hx_args=(),
                residual=np.subtract):
-- 
2.43.0


From 2e0e583f2eb88b52b7de4cf1d77de8586cc0417f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:49 +0000
Subject: [PATCH 09/64] fix: predict() without u no longer broadcasts x when B
 has several columns

---
 filterpy/hinfinity/hinfinity_filter.py | 9 +++++++--
 filterpy/kalman/EKF.py                 | 4 +++-
 filterpy/kalman/fading_memory.py       | 8 ++++++--
 filterpy/kalman/information_filter.py  | 4 +++-
 filterpy/kalman/square_root.py         | 4 +++-
 5 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/filterpy/hinfinity/hinfinity_filter.py b/filterpy/hinfinity/hinfinity_filter.py
index 9ed320e..ab8b329 100644
--- a/filterpy/hinfinity/hinfinity_filter.py
+++ b/filterpy/hinfinity/hinfinity_filter.py
@@ -154,7 +154,9 @@ class HInfinityFilter(object):
         """
 
         # x = Fx + Bu
-        self.x = dot(self.F, self.x) + dot(self.B, u)
+        self.x = dot(self.F, self.x)
+        if not np.isscalar(u) or u != 0:
+            self.x = self.x + dot(self.B, u)
 
 
     def batch_filter(self, Zs,update_first=False, saver=False):
@@ -230,7 +232,10 @@ class HInfinityFilter(object):
         x : ndarray
             State vector of the prediction.
         """
-        return dot(self.F, self.x) + dot(self.B, u)
+        x = dot(self.F, self.x)
+        if not np.isscalar(u) or u != 0:
+            x = x + dot(self.B, u)
+        return x
 
 
     def residual_of(self, z):
diff --git a/filterpy/kalman/EKF.py b/filterpy/kalman/EKF.py
index 3ed5640..56e6638 100644
--- a/filterpy/kalman/EKF.py
+++ b/filterpy/kalman/EKF.py
@@ -301,7 +301,9 @@ class ExtendedKalmanFilter(object):
         need to do this, for example, if the usual Taylor expansion to
         generate F is not providing accurate results for you.
         """
-        self.x = dot(self.F, self.x) + dot(self.B, u)
+        self.x = dot(self.F, self.x)
+        if not np.isscalar(u) or u != 0:
+            self.x = self.x + dot(self.B, u)
 
     def predict(self, u=0):
         """
diff --git a/filterpy/kalman/fading_memory.py b/filterpy/kalman/fading_memory.py
index 36c9dcc..50df8b8 100644
--- a/filterpy/kalman/fading_memory.py
+++ b/filterpy/kalman/fading_memory.py
@@ -264,7 +264,9 @@ class FadingKalmanFilter(object):
         """
 
         # x = Fx + Bu
-        self.x = dot(self.F, self.x) + dot(self.B, u)
+        self.x = dot(self.F, self.x)
+        if not np.isscalar(u) or u != 0:
+            self.x = self.x + dot(self.B, u)
 
         # P = FPF' + Q
         self.P = self.alpha_sq * dot(self.F, self.P).dot(self.F.T) + self.Q
@@ -367,7 +369,9 @@ class FadingKalmanFilter(object):
             State vector and covariance array of the prediction.
         """
 
-        x = dot(self.F, self.x) + dot(self.B, u)
+        x = dot(self.F, self.x)
+        if not np.isscalar(u) or u != 0:
+            x = x + dot(self.B, u)
         P = self.alpha_sq * dot(self.F, self.P).dot(self.F.T) + self.Q
         return (x, P)
 
diff --git a/filterpy/kalman/information_filter.py b/filterpy/kalman/information_filter.py
index 46724d3..3f1b9fa 100644
--- a/filterpy/kalman/information_filter.py
+++ b/filterpy/kalman/information_filter.py
@@ -271,7 +271,9 @@ class InformationFilter(object):
             self._no_information = True
 
         if invertable:
-            self.x = dot(self._F, self.x) + dot(self.B, u)
+            self.x = dot(self._F, self.x)
+            if not np.isscalar(u) or u != 0:
+                self.x = self.x + dot(self.B, u)
             self.P_inv = self.inv(AI + self.Q)
 
             # save priors
diff --git a/filterpy/kalman/square_root.py b/filterpy/kalman/square_root.py
index d776182..ffe8c96 100644
--- a/filterpy/kalman/square_root.py
+++ b/filterpy/kalman/square_root.py
@@ -237,7 +237,9 @@ class SquareRootKalmanFilter(object):
         """
 
         # x = Fx + Bu
-        self.x = dot(self.F, self.x) + dot(self.B, u)
+        self.x = dot(self.F, self.x)
+        if not np.isscalar(u) or u != 0:
+            self.x = self.x + dot(self.B, u)
 
         # P = FPF' + Q
         _, P2 = qr(np.hstack([dot(self.F, self._P1_2), self._Q1_2]).T)
-- 
2.43.0


From 7bb8c7b1efac084cdb0d2daa5214645133341915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:49 +0000
Subject: [PATCH 10/64] fix: SquareRootKalmanFilter.update overwrote the
 caller's x array

---
 filterpy/kalman/square_root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/kalman/square_root.py b/filterpy/kalman/square_root.py
index ffe8c96..9be765a 100644
--- a/filterpy/kalman/square_root.py
+++ b/filterpy/kalman/square_root.py
@@ -216,7 +216,7 @@ class SquareRootKalmanFilter(object):
 
         # x = x + Ky
         # predict new x with residual scaled by the kalman gain
-        self.x += dot(self.K, self.y)
+        self.x = self.x + dot(self.K, self.y)
         self._P1_2 = r_decomp[dim_z:, dim_z:].T
 
         self.z = deepcopy(z)
-- 
2.43.0


From dd7b8d2bbb979759d56f646b13040e63aeb6d480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:49 +0000
Subject: [PATCH 11/64] fix: SquareRootKalmanFilter.P_post returned the prior
 covariance

---
 filterpy/kalman/square_root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/kalman/square_root.py b/filterpy/kalman/square_root.py
index 9be765a..b9acf0b 100644
--- a/filterpy/kalman/square_root.py
+++ b/filterpy/kalman/square_root.py
@@ -302,7 +302,7 @@ class SquareRootKalmanFilter(object):
     @property
     def P_post(self):
         """ covariance matrix of the posterior"""
-        return dot(self._P1_2_prior, self._P1_2_prior.T)
+        return dot(self._P1_2_post, self._P1_2_post.T)
 
     @property
     def P1_2(self):
-- 
2.43.0


From d7cee0766472436ff38b6501b0b6c28791a895dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:49 +0000
Subject: [PATCH 12/64] fix: HInfinityFilter.batch_filter works without a saver
 and with None measurements

---
 filterpy/hinfinity/hinfinity_filter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filterpy/hinfinity/hinfinity_filter.py b/filterpy/hinfinity/hinfinity_filter.py
index ab8b329..731c2ad 100644
--- a/filterpy/hinfinity/hinfinity_filter.py
+++ b/filterpy/hinfinity/hinfinity_filter.py
@@ -159,7 +159,7 @@ class HInfinityFilter(object):
             self.x = self.x + dot(self.B, u)
 
 
-    def batch_filter(self, Zs,update_first=False, saver=False):
+    def batch_filter(self, Zs,update_first=False, saver=None):
         """ Batch processes a sequences of measurements.
 
         Parameters
@@ -187,7 +187,7 @@ class HInfinityFilter(object):
             `covariance[k, :, :]` is the covariance at step `k`.
         """
 
-        n = np.size(Zs, 0)
+        n = len(Zs)
 
         # mean estimates from H-Infinity Filter
         means = zeros((n, self.dim_x, 1))
-- 
2.43.0


From 74939f12d0f3b1584b05d5185b9b0bb4ce700edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:49 +0000
Subject: [PATCH 13/64] fix: FadingKalmanFilter.batch_filter accepts None mixed
 with vector measurements

---
 filterpy/kalman/fading_memory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/kalman/fading_memory.py b/filterpy/kalman/fading_memory.py
index 50df8b8..c4d83b5 100644
--- a/filterpy/kalman/fading_memory.py
+++ b/filterpy/kalman/fading_memory.py
@@ -316,7 +316,7 @@ class FadingKalmanFilter(object):
             In other words `covariance[k,:,:]` is the covariance at step `k`.
         """
 
-        n = np.size(zs, 0)
+        n = len(zs)
         if Rs is None:
             Rs = [None] * n
 
-- 
2.43.0


From b33a71e9bda1d860618808ac5b9fbf634af00ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:06 +0000
Subject: [PATCH 14/64] fix: InformationFilter log-likelihood used the
 information matrix as a covariance

---
 filterpy/kalman/information_filter.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/filterpy/kalman/information_filter.py b/filterpy/kalman/information_filter.py
index 3f1b9fa..8ca5eb4 100644
--- a/filterpy/kalman/information_filter.py
+++ b/filterpy/kalman/information_filter.py
@@ -23,7 +23,6 @@ import math
 import sys
 import numpy as np
 from numpy import dot, zeros, eye
-from filterpy.stats import logpdf
 from filterpy.common import pretty_str, reshape_z
 
 
@@ -232,7 +231,12 @@ class InformationFilter(object):
             self.z = np.copy(reshape_z(z, self.dim_z, np.ndim(self.x)))
 
             if self.compute_log_likelihood:
-                self.log_likelihood = logpdf(x=self.y, cov=self.S)
+                # inverse of the innovation covariance, (HPH' + R)^-1
+                SI = R_inv - dot(R_inv, H).dot(self.K)
+                y = np.ravel(self.y)
+                _, logdet = np.linalg.slogdet(SI)
+                self.log_likelihood = 0.5 * (
+                    logdet - dot(y, SI).dot(y) - len(y) * math.log(2 * math.pi))
                 self.likelihood = math.exp(self.log_likelihood)
                 if self.likelihood == 0:
                     self.likelihood = sys.float_info.min
-- 
2.43.0


From 9df2751271c13cfe776d8cd73c20ff33f0e80b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:34 +0000
Subject: [PATCH 15/64] fix: IMMEstimator overwrote previously returned x and P
 in place

---
 filterpy/kalman/IMM.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filterpy/kalman/IMM.py b/filterpy/kalman/IMM.py
index 84808fa..51a9971 100644
--- a/filterpy/kalman/IMM.py
+++ b/filterpy/kalman/IMM.py
@@ -229,11 +229,11 @@ class IMMEstimator(object):
         Computes the IMM's mixed state estimate from each filter using
         the the mode probability self.mu to weight the estimates.
         """
-        self.x.fill(0)
+        self.x = zeros(self.x.shape)
         for f, mu in zip(self.filters, self.mu):
             self.x += f.x * mu
 
-        self.P.fill(0)
+        self.P = zeros(self.P.shape)
         for f, mu in zip(self.filters, self.mu):
             y = f.x - self.x
             self.P += mu * (outer(y, y) + f.P)
-- 
2.43.0


From c9b26679d2a6fcededab8ae971109f26fbf7da8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:34 +0000
Subject: [PATCH 16/64] fix: IMMEstimator.update(None) no longer changes the
 mode probabilities

---
 filterpy/kalman/IMM.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/filterpy/kalman/IMM.py b/filterpy/kalman/IMM.py
index 51a9971..861588a 100644
--- a/filterpy/kalman/IMM.py
+++ b/filterpy/kalman/IMM.py
@@ -169,6 +169,13 @@ class IMMEstimator(object):
             measurement for this update.
         """
 
+        if z is None:
+            for f in self.filters:
+                f.update(z)
+            self.x_post = self.x.copy()
+            self.P_post = self.P.copy()
+            return
+
         # run update on each filter, and save the likelihood
         for i, f in enumerate(self.filters):
             f.update(z)
-- 
2.43.0


From b872726e1105ce3fdb4538f7ffe4737714f383e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:34 +0000
Subject: [PATCH 17/64] fix: MMAEFilterBank modified the caller's probabilities
 and truncated integer ones

---
 filterpy/kalman/mmae.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/kalman/mmae.py b/filterpy/kalman/mmae.py
index f28d9de..16304b1 100644
--- a/filterpy/kalman/mmae.py
+++ b/filterpy/kalman/mmae.py
@@ -110,7 +110,7 @@ class MMAEFilterBank(object):
             raise ValueError('dim_x must be >= 1')
 
         self.filters = filters
-        self.p = np.asarray(p)
+        self.p = np.array(p, dtype=float)
         self.dim_x = dim_x
         if H is None:
             self.H = None
-- 
2.43.0


From 6b269a2f6107140248eeaeb68378791fa0634d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:34 +0000
Subject: [PATCH 18/64] fix: MMAEFilterBank covariance used single state
 components as the mean

---
 filterpy/kalman/mmae.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filterpy/kalman/mmae.py b/filterpy/kalman/mmae.py
index 16304b1..3adb352 100644
--- a/filterpy/kalman/mmae.py
+++ b/filterpy/kalman/mmae.py
@@ -201,8 +201,8 @@ class MMAEFilterBank(object):
             for f, p in zip(self.filters, self.p):
                 self.x += np.dot(f.x, p)
 
-        for x, f, p in zip(self.x, self.filters, self.p):
-            y = f.x - x
+        for f, p in zip(self.filters, self.p):
+            y = f.x - self.x
             self.P += p*(np.outer(y, y) + f.P)
 
 
-- 
2.43.0


From ba9bd3041e9ab73c72181d0ca1f25d81dd5ff10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:34 +0000
Subject: [PATCH 19/64] fix: MMAEFilterBank.update(None) no longer changes the
 probabilities

---
 filterpy/kalman/mmae.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/filterpy/kalman/mmae.py b/filterpy/kalman/mmae.py
index 3adb352..b27bd9f 100644
--- a/filterpy/kalman/mmae.py
+++ b/filterpy/kalman/mmae.py
@@ -180,6 +180,14 @@ class MMAEFilterBank(object):
         if H is None:
             H = self.H
 
+        if z is None:
+            for f in self.filters:
+                f.update(z)
+            self.z = None
+            self.x_post = self.x.copy()
+            self.P_post = self.P.copy()
+            return
+
         # new probability is recursively defined as prior * likelihood
         for i, f in enumerate(self.filters):
             f.update(z, R, H)
-- 
2.43.0


From 1e9c7f8ff2b62cb79db89a23ea822f3e116653a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:56 +0000
Subject: [PATCH 20/64] fix: MMAEFilterBank.predict did not update x and P

---
 filterpy/kalman/mmae.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/filterpy/kalman/mmae.py b/filterpy/kalman/mmae.py
index b27bd9f..078e007 100644
--- a/filterpy/kalman/mmae.py
+++ b/filterpy/kalman/mmae.py
@@ -153,6 +153,8 @@ class MMAEFilterBank(object):
         for f in self.filters:
             f.predict(u)
 
+        self._compute_state_estimate()
+
         # save prior
         self.x_prior = self.x.copy()
         self.P_prior = self.P.copy()
@@ -195,6 +197,17 @@ class MMAEFilterBank(object):
 
         self.p /= sum(self.p) # normalize
 
+        self._compute_state_estimate()
+
+        # save measurement and posterior state
+        self.z = deepcopy(z)
+        self.x_post = self.x.copy()
+        self.P_post = self.P.copy()
+
+    def _compute_state_estimate(self):
+        """ Computes the state and covariance of the bank from the filters
+        and their probabilities."""
+
         # compute estimated state and covariance of the bank of filters.
         self.P = np.zeros(self.filters[0].P.shape)
 
@@ -213,12 +226,6 @@ class MMAEFilterBank(object):
             y = f.x - self.x
             self.P += p*(np.outer(y, y) + f.P)
 
-
-        # save measurement and posterior state
-        self.z = deepcopy(z)
-        self.x_post = self.x.copy()
-        self.P_post = self.P.copy()
-
     def __repr__(self):
         return '\n'.join([
             'MMAEFilterBank object',
-- 
2.43.0


From d59bc85679ebfe72932bd10a8b318c406fa20ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:21 +0000
Subject: [PATCH 21/64] fix: UKF rts_smoother ignored Qs and used the wrong
 step's dt

---
 filterpy/kalman/UKF.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filterpy/kalman/UKF.py b/filterpy/kalman/UKF.py
index f8baf19..38c7781 100644
--- a/filterpy/kalman/UKF.py
+++ b/filterpy/kalman/UKF.py
@@ -715,10 +715,10 @@ class UnscentedKalmanFilter(object):
             # create sigma points from state estimate, pass through state func
             sigmas = self.points_fn.sigma_points(xs[k], ps[k])
             for i in range(num_sigmas):
-                sigmas_f[i] = self.fx(sigmas[i], dts[k])
+                sigmas_f[i] = self.fx(sigmas[i], dts[k+1])
 
             xb, Pb = UT(
-                sigmas_f, self.Wm, self.Wc, self.Q,
+                sigmas_f, self.Wm, self.Wc, Qs[k+1],
                 self.x_mean, self.residual_x)
 
             # compute cross variance
-- 
2.43.0


From cd76e7e908a55a63b577b5d195c48c5b21adb887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:21 +0000
Subject: [PATCH 22/64] fix: UKF batch_filter accepts None as first measurement
 and list elements

---
 filterpy/kalman/UKF.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/filterpy/kalman/UKF.py b/filterpy/kalman/UKF.py
index 38c7781..0e76a64 100644
--- a/filterpy/kalman/UKF.py
+++ b/filterpy/kalman/UKF.py
@@ -595,8 +595,10 @@ class UnscentedKalmanFilter(object):
         except TypeError:
             raise TypeError('zs must be list-like')
 
-        if self._dim_z == 1:
-            if not(isscalar(z) or (z.ndim == 1 and len(z) == 1)):
+        if z is None:
+            pass
+        elif self._dim_z == 1:
+            if not(isscalar(z) or (np.ndim(z) == 1 and len(z) == 1)):
                 raise TypeError('zs must be a list of scalars or 1D, 1 element arrays')
         else:
             if len(z) != self._dim_z:
-- 
2.43.0


From 23ca6911de5c246f78ed238cd8a2dc34ec3dce51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:37 +0000
Subject: [PATCH 23/64] fix: CubatureKalmanFilter.update with a 1-D measurement
 corrupted the state

---
 filterpy/kalman/CubatureKalmanFilter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/filterpy/kalman/CubatureKalmanFilter.py b/filterpy/kalman/CubatureKalmanFilter.py
index bae2a1a..5c4901e 100644
--- a/filterpy/kalman/CubatureKalmanFilter.py
+++ b/filterpy/kalman/CubatureKalmanFilter.py
@@ -26,7 +26,7 @@ import numpy as np
 from numpy import eye, zeros, dot, isscalar
 from scipy.linalg import inv, cholesky
 from filterpy.stats import logpdf
-from filterpy.common import pretty_str, outer_product_sum
+from filterpy.common import pretty_str, outer_product_sum, reshape_z
 
 
 def spherical_radial_sigmas(x, P):
@@ -359,6 +359,8 @@ class CubatureKalmanFilter(object):
         elif isscalar(R):
             R = eye(self.dim_z) * R
 
+        z = reshape_z(z, self.dim_z, 2)
+
         for k in range(self._num_sigmas):
             self.sigmas_h[k] = self.hx(self.sigmas_f[k], *hx_args)
 
-- 
2.43.0


From 687a349a65d40483c5ceb6b9ac52508e739a3243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:55 +0000
Subject: [PATCH 24/64] fix: UKF batch_filter accepts a scalar dts as
 documented

---
 filterpy/kalman/UKF.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/filterpy/kalman/UKF.py b/filterpy/kalman/UKF.py
index 0e76a64..8e52bad 100644
--- a/filterpy/kalman/UKF.py
+++ b/filterpy/kalman/UKF.py
@@ -612,6 +612,8 @@ class UnscentedKalmanFilter(object):
 
         if dts is None:
             dts = [self._dt] * z_n
+        elif isscalar(dts):
+            dts = [dts] * z_n
 
         # mean estimates from Kalman Filter
         if self.x.ndim == 1:
-- 
2.43.0


From d78111c98749f6d38776a2f61ba39f821f6049bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:08 +0000
Subject: [PATCH 25/64] fix: g-h filters did not record the last measurement in
 z

---
 filterpy/gh/gh_filter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/filterpy/gh/gh_filter.py b/filterpy/gh/gh_filter.py
index 260109f..32f33eb 100644
--- a/filterpy/gh/gh_filter.py
+++ b/filterpy/gh/gh_filter.py
@@ -158,8 +158,6 @@ class GHFilterOrder(object):
             self.x[0] = x + dxdt + g*self.y
             self.x[1] = dx       + h*self.y / self.dt
 
-            self.z = z
-
         else: # order == 2
             if g is None:
                 g = self.g
@@ -180,6 +178,8 @@ class GHFilterOrder(object):
             self.x[1] = dx + ddx*self.dt      + h*self.y / self.dt
             self.x[2] = ddx                 + 2*k*self.y / (self.dt**2)
 
+        self.z = z
+
     def __repr__(self):
         return '\n'.join([
             'GHFilterOrder object',
@@ -373,6 +373,7 @@ class GHFilter(object):
         self.y = z - self.x_prediction
         self.dx = self.dx_prediction + h * self.y / self.dt
         self.x  = self.x_prediction  + g * self.y
+        self.z = z
 
         return (self.x, self.dx)
 
@@ -676,6 +677,7 @@ class GHKFilter(object):
         self.ddx = self.ddx_prediction + 2*k*self.y / dt_sqr
         self.dx  = self.dx_prediction  + h * self.y / dt
         self.x   = self.x_prediction   + g * self.y
+        self.z = z
 
         return (self.x, self.dx)
 
-- 
2.43.0


From 991b648a1070b6856e165cb3a1bd8b57a9ab909e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:08 +0000
Subject: [PATCH 26/64] fix: GHKFilter.batch_filter ignored the acceleration
 and k

---
 filterpy/gh/gh_filter.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/filterpy/gh/gh_filter.py b/filterpy/gh/gh_filter.py
index 32f33eb..220e658 100644
--- a/filterpy/gh/gh_filter.py
+++ b/filterpy/gh/gh_filter.py
@@ -718,6 +718,7 @@ class GHKFilter(object):
 
         x = self.x
         dx = self.dx
+        ddx = self.ddx
         n = len(data)
 
         results = np.zeros((n+1, 2))
@@ -729,15 +730,17 @@ class GHKFilter(object):
 
         # optimization to avoid n computations of h / dt
         h_dt = self.h / self.dt
+        k_dt2 = 2*self.k / self.dt**2
 
         for i, z in enumerate(data):
             #prediction step
-            x_est = x + (dx*self.dt)
+            x_est = x + (dx*self.dt) + .5*ddx*self.dt**2
 
             # update step
             residual = z - x_est
-            dx = dx    + h_dt   * residual # i.e. dx = dx + h * residual / dt
-            x  = x_est + self.g * residual
+            dx  = dx + ddx*self.dt + h_dt * residual
+            ddx = ddx + k_dt2 * residual
+            x   = x_est + self.g * residual
 
             results[i+1, 0] = x
             results[i+1, 1] = dx
-- 
2.43.0


From 00c2caa7fdcd478db5ec068968e936a1e6cb6921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:08 +0000
Subject: [PATCH 27/64] fix: GHKFilter.VRF_prediction denominator

---
 filterpy/gh/gh_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/gh/gh_filter.py b/filterpy/gh/gh_filter.py
index 220e658..4b9f316 100644
--- a/filterpy/gh/gh_filter.py
+++ b/filterpy/gh/gh_filter.py
@@ -776,7 +776,7 @@ class GHKFilter(object):
         k = self.k
         gh2 = 2*g + h
         return ((g*k*(gh2-4)+ h*(g*gh2+2*h)) /
-                (2*k - (g*(h+k)*(gh2-4))))
+                ((2*k - g*(h+k)) * (gh2-4)))
 
 
     def bias_error(self, dddx):
-- 
2.43.0


From a978947c25320a58159e12901fe7b2bfce100b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:08 +0000
Subject: [PATCH 28/64] fix: GHKFilter.VRF for x and dx

---
 filterpy/gh/gh_filter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filterpy/gh/gh_filter.py b/filterpy/gh/gh_filter.py
index 4b9f316..4e6bef2 100644
--- a/filterpy/gh/gh_filter.py
+++ b/filterpy/gh/gh_filter.py
@@ -834,8 +834,8 @@ class GHKFilter(object):
         hg4 = 4- 2*g - h
         ghk = g*h + g*k - 2*k
 
-        vx = (2*h*(2*(g**2) + 2*h - 3*g*h) - 2*g*k*hg4) / (2*k - g*(h+k) * hg4)
-        vdx = (2*(h**3) - 4*(h**2)*k + 4*(k**2)*(2-g)) / (2*hg4*ghk)
+        vx = (2*h*(2*(g**2) + 2*h - 3*g*h) - 2*g*k*hg4) / (2*hg4*ghk)
+        vdx = (2*(h**3) - 4*(h**2)*k + 4*(k**2)*(2-g)) / (self.dt**2*hg4*ghk)
         vddx = 8*h*(k**2) / ((self.dt**4)*hg4*ghk)
 
         return (vx, vdx, vddx)
-- 
2.43.0


From d88f8bcfe4241cd4006ed1f0597941d795198c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:08 +0000
Subject: [PATCH 29/64] fix: FadingMemoryFilter order 1 variance and truncation
 error dt scaling

---
 filterpy/memory/fading_memory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filterpy/memory/fading_memory.py b/filterpy/memory/fading_memory.py
index 8b2f66e..2cdebc8 100644
--- a/filterpy/memory/fading_memory.py
+++ b/filterpy/memory/fading_memory.py
@@ -120,10 +120,10 @@ class FadingMemoryFilter(object):
 
         elif order == 1:
             p11 = (1-beta) * (1+4*beta+5*beta**2) / (1+beta)**3
-            p22 = 2*(1-beta)**3 / (1+beta)**3
+            p22 = 2*(1-beta)**3 / ((1+beta)**3 * dt**2)
             self.P = np.array([p11, p22], dtype=float)
 
-            e = 2*dt*2 * (beta / (1-beta))**2
+            e = 2*dt**2 * (beta / (1-beta))**2
             de = dt*((1+3*beta)/(1-beta))
             self.e = np.array([e, de], dtype=float)
 
-- 
2.43.0


From 020e3b8947f9a0e17b62cbdc9fa002edfd30c942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:08 +0000
Subject: [PATCH 30/64] fix: FadingMemoryFilter truncated the state for integer
 x0 arrays

---
 filterpy/memory/fading_memory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/memory/fading_memory.py b/filterpy/memory/fading_memory.py
index 2cdebc8..72cc043 100644
--- a/filterpy/memory/fading_memory.py
+++ b/filterpy/memory/fading_memory.py
@@ -108,7 +108,7 @@ class FadingMemoryFilter(object):
             self.x = np.zeros(order+1)
             self.x[0] = x0
         else:
-            self.x = np.copy(x0)
+            self.x = np.array(x0, dtype=float)
 
         self.dt = dt
         self.order = order
-- 
2.43.0


From 482aaa5b57d41dc15767c7c21f13c84797b82f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:08 +0000
Subject: [PATCH 31/64] fix: LeastSquaresFilter did not record the residual

---
 filterpy/leastsq/least_squares.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/filterpy/leastsq/least_squares.py b/filterpy/leastsq/least_squares.py
index 2610b14..3a123b4 100644
--- a/filterpy/leastsq/least_squares.py
+++ b/filterpy/leastsq/least_squares.py
@@ -125,7 +125,6 @@ class LeastSquaresFilter(object):
         dt = self.dt
         x = self.x
         K = self.K
-        y = self.y
 
         if self._order == 0:
             K[0] = 1. / n
@@ -152,6 +151,8 @@ class LeastSquaresFilter(object):
             x[0] += (K[0] * y) + (x[1] * dt) + (.5 * dt**2 * x[2])
             x[1] += (K[1] * y) + (x[2] * dt)
             x[2] += (K[2] * y)
+
+        self.y = y
         return self.x
 
     def errors(self):
-- 
2.43.0


From a2e786fe37ea69e43fc112af1899d44d6f147710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:26 +0000
Subject: [PATCH 32/64] fix: LeastSquaresFilter.errors() divided by zero for n
 <= order

---
 filterpy/leastsq/least_squares.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/filterpy/leastsq/least_squares.py b/filterpy/leastsq/least_squares.py
index 3a123b4..da5009f 100644
--- a/filterpy/leastsq/least_squares.py
+++ b/filterpy/leastsq/least_squares.py
@@ -186,8 +186,8 @@ class LeastSquaresFilter(object):
             if n > 1:
                 error[0] = sigma * sqrt(2*(2*n-1) / (n*(n+1)))
                 error[1] = sigma * sqrt(12. / (n*(n*n-1)*dt*dt))
-            std[0] = sigma * sqrt((2*(2*n-1)) / (n*(n+1)))
-            std[1] = (sigma/dt) * sqrt(12. / (n*(n*n-1)))
+                std[0] = sigma * sqrt((2*(2*n-1)) / (n*(n+1)))
+                std[1] = (sigma/dt) * sqrt(12. / (n*(n*n-1)))
 
         elif order == 2:
             dt2 = dt * dt
@@ -198,10 +198,10 @@ class LeastSquaresFilter(object):
                                         (n*(n*n-1)*(n*n-4)*dt2))
                 error[2] = sigma * sqrt(720/(n*(n*n-1)*(n*n-4)*dt2*dt2))
 
-            std[0] = sigma * sqrt((3*(3*n*n - 3*n + 2)) / (n*(n+1)*(n+2)))
-            std[1] = (sigma/dt) * sqrt((12*(16*n*n - 30*n + 11)) /
-                                       (n*(n*n - 1)*(n*n - 4)))
-            std[2] = (sigma/dt2) * sqrt(720 / (n*(n*n-1)*(n*n-4)))
+                std[0] = sigma * sqrt((3*(3*n*n - 3*n + 2)) / (n*(n+1)*(n+2)))
+                std[1] = (sigma/dt) * sqrt((12*(16*n*n - 30*n + 11)) /
+                                           (n*(n*n - 1)*(n*n - 4)))
+                std[2] = (sigma/dt2) * sqrt(720 / (n*(n*n-1)*(n*n-4)))
 
         return error, std
 
-- 
2.43.0


From ffd6ab537e9c8def18f2347acfc154a098abc5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:21 +0000
Subject: [PATCH 33/64] fix: residual and multinomial resampling select in
 proportion to the weights

The residual of residual_resample was taken from the weights rather than
from N*weights, which gave negative 'probabilities' (and a division by
zero when nothing was left to draw). Forcing the last cumulative value to
one, together with a left bisection, could select particles of weight 0.
---
 filterpy/monte_carlo/resampling.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/filterpy/monte_carlo/resampling.py b/filterpy/monte_carlo/resampling.py
index e657871..d53d7e6 100644
--- a/filterpy/monte_carlo/resampling.py
+++ b/filterpy/monte_carlo/resampling.py
@@ -67,11 +67,11 @@ def residual_resample(weights):
 
     # use multinormal resample on the residual to fill up the rest. This
     # maximizes the variance of the samples
-    residual = weights - num_copies     # get fractional part
-    residual /= sum(residual)           # normalize
-    cumulative_sum = np.cumsum(residual)
-    cumulative_sum[-1] = 1. # avoid round-off errors: ensures sum is exactly one
-    indexes[k:N] = np.searchsorted(cumulative_sum, random(N-k))
+    if k < N:
+        residual = N*np.asarray(weights) - num_copies  # get fractional part
+        cumulative_sum = np.cumsum(residual)
+        cumulative_sum = cumulative_sum / cumulative_sum[-1]  # normalize
+        indexes[k:N] = np.searchsorted(cumulative_sum, random(N-k), side='right')
 
     return indexes
 
@@ -172,5 +172,5 @@ def multinomial_resample(weights):
         index of the zeroth resample is indexes[0], etc.
     """
     cumulative_sum = np.cumsum(weights)
-    cumulative_sum[-1] = 1.  # avoid round-off errors: ensures sum is exactly one
-    return np.searchsorted(cumulative_sum, random(len(weights)))
+    cumulative_sum = cumulative_sum / cumulative_sum[-1]  # ensures last is exactly one
+    return np.searchsorted(cumulative_sum, random(len(weights)), side='right')
-- 
2.43.0


From 71caee830ca3fa538da6e17fa5b8759169260bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:21 +0000
Subject: [PATCH 34/64] fix: stratified and systematic resampling could run
 past the last weight

When round-off leaves the cumulative sum below one, or the last position
rounds up to one, the search ran off the end with an IndexError.
---
 filterpy/monte_carlo/resampling.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/filterpy/monte_carlo/resampling.py b/filterpy/monte_carlo/resampling.py
index d53d7e6..b626799 100644
--- a/filterpy/monte_carlo/resampling.py
+++ b/filterpy/monte_carlo/resampling.py
@@ -100,10 +100,11 @@ def stratified_resample(weights):
 
     N = len(weights)
     # make N subdivisions, and chose a random position within each one
-    positions = (random(N) + range(N)) / N
+    positions = np.minimum((random(N) + range(N)) / N, np.nextafter(1., 0.))
 
     indexes = np.zeros(N, 'i')
     cumulative_sum = np.cumsum(weights)
+    cumulative_sum = cumulative_sum / cumulative_sum[-1]  # ensures last is exactly one
     i, j = 0, 0
     while i < N:
         if positions[i] < cumulative_sum[j]:
@@ -136,10 +137,11 @@ def systematic_resample(weights):
     N = len(weights)
 
     # make N subdivisions, and choose positions with a consistent random offset
-    positions = (random() + np.arange(N)) / N
+    positions = np.minimum((random() + np.arange(N)) / N, np.nextafter(1., 0.))
 
     indexes = np.zeros(N, 'i')
     cumulative_sum = np.cumsum(weights)
+    cumulative_sum = cumulative_sum / cumulative_sum[-1]  # ensures last is exactly one
     i, j = 0, 0
     while i < N:
         if positions[i] < cumulative_sum[j]:
-- 
2.43.0


From b792050e21c32b18fc8c0849b96deb53d16a2f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:21 +0000
Subject: [PATCH 35/64] fix: compare_kf returns the names that differ and
 accepts non-numeric attributes

---
 filterpy/common/helpers.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/filterpy/common/helpers.py b/filterpy/common/helpers.py
index 108a3ae..f797d6b 100644
--- a/filterpy/common/helpers.py
+++ b/filterpy/common/helpers.py
@@ -457,7 +457,13 @@ def compare_kf(kf1, kf2, log=True, **kwargs):
         if attr[0] == "_":
             continue
 
-        if not np.allclose(v1[attr], v2[attr], **kwargs):
+        try:
+            same = np.allclose(v1[attr], v2[attr], **kwargs)
+        except TypeError:
+            # not numeric (None, functions, objects...)
+            same = np.array_equal(v1[attr], v2[attr])
+
+        if not same:
             if log:
                 print(attr, "is different")
                 print(pretty_str(attr, v1[attr]))
@@ -466,7 +472,7 @@ def compare_kf(kf1, kf2, log=True, **kwargs):
             different_keys.append(attr)
 
     if len(different_keys) > 0:
-        return different
+        return different_keys
     else:
         return None
 
-- 
2.43.0


From 4c40c8ac46f604e045783a98330295daf12eb917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:21 +0000
Subject: [PATCH 36/64] fix: Saver stores a copy of the value of properties

Properties that return an array the filter later modifies were recorded
by reference, so that earlier epochs changed after they were saved.
---
 filterpy/common/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/common/helpers.py b/filterpy/common/helpers.py
index f797d6b..f01ec5a 100644
--- a/filterpy/common/helpers.py
+++ b/filterpy/common/helpers.py
@@ -127,7 +127,7 @@ class Saver(object):
         # if the class uses properties that compute data only when
         # accessed
         for prop in self.properties:
-            self._DL[prop[0]].append(getattr(kf, prop[0]))
+            self._DL[prop[0]].append(copy.deepcopy(getattr(kf, prop[0])))
 
         v = copy.deepcopy(kf.__dict__)
 
-- 
2.43.0


From d49291d81f395c8df74357c840a6a67f537a7555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:42 +0000
Subject: [PATCH 37/64] fix: SimplexSigmaPoints accepts any array-like x as
 documented

---
 filterpy/kalman/sigma_points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/kalman/sigma_points.py b/filterpy/kalman/sigma_points.py
index 37875ae..ac78032 100644
--- a/filterpy/kalman/sigma_points.py
+++ b/filterpy/kalman/sigma_points.py
@@ -489,7 +489,7 @@ class SimplexSigmaPoints(object):
 
         if np.isscalar(x):
             x = np.asarray([x])
-        x = x.reshape(-1, 1)
+        x = np.asarray(x).reshape(-1, 1)
 
         if np.isscalar(P):
             P = np.eye(n) * P
-- 
2.43.0


From 7939765edf07011575b8c23813f375fbd535fea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:42 +0000
Subject: [PATCH 38/64] fix: compare_kf reports attributes of different shape
 as different

---
 filterpy/common/helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filterpy/common/helpers.py b/filterpy/common/helpers.py
index f01ec5a..c2d4a2b 100644
--- a/filterpy/common/helpers.py
+++ b/filterpy/common/helpers.py
@@ -459,8 +459,8 @@ def compare_kf(kf1, kf2, log=True, **kwargs):
 
         try:
             same = np.allclose(v1[attr], v2[attr], **kwargs)
-        except TypeError:
-            # not numeric (None, functions, objects...)
+        except (TypeError, ValueError):
+            # not numeric (None, functions, objects...) or different shapes
             same = np.array_equal(v1[attr], v2[attr])
 
         if not same:
-- 
2.43.0


From de5fe60379fa86f2b6a05011a7ecc1308f8f88a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:35 +0000
Subject: [PATCH 39/64] fix: rand_student_t drew the chi-squared variate twice
 too large

---
 filterpy/stats/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/stats/stats.py b/filterpy/stats/stats.py
index b303012..fa0713e 100644
--- a/filterpy/stats/stats.py
+++ b/filterpy/stats/stats.py
@@ -1131,7 +1131,7 @@ def rand_student_t(df, mu=0, std=1):
     """
 
     x = random.gauss(0, std)
-    y = 2.0*random.gammavariate(0.5 * df, 2.0)
+    y = random.gammavariate(0.5 * df, 2.0)  # chi-squared with df degrees of freedom
     return x / (math.sqrt(y / df)) + mu
 
 
-- 
2.43.0


From dbc774f3b3b67b0075253f6aa75c9a871ea3051b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:31 +0000
Subject: [PATCH 40/64] fix: CubatureKalmanFilter.update ignored the process
 noise in the cubature points

---
 filterpy/kalman/CubatureKalmanFilter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/filterpy/kalman/CubatureKalmanFilter.py b/filterpy/kalman/CubatureKalmanFilter.py
index 5c4901e..5ed3273 100644
--- a/filterpy/kalman/CubatureKalmanFilter.py
+++ b/filterpy/kalman/CubatureKalmanFilter.py
@@ -322,6 +322,9 @@ class CubatureKalmanFilter(object):
 
         self.x, self.P = ckf_transform(self.sigmas_f, self.Q)
 
+        # update cubature points to reflect the process noise added to P
+        self.sigmas_f = spherical_radial_sigmas(self.x, self.P)
+
         # save prior
         self.x_prior = self.x.copy()
         self.P_prior = self.P.copy()
-- 
2.43.0


From d11737be35a76ea7c539ee2dcdfcaf59b756fff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:18 +0000
Subject: [PATCH 41/64] fix: repr and properties of a CubatureKalmanFilter
 raised before the first update

---
 filterpy/kalman/CubatureKalmanFilter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/kalman/CubatureKalmanFilter.py b/filterpy/kalman/CubatureKalmanFilter.py
index 5ed3273..2bb27b3 100644
--- a/filterpy/kalman/CubatureKalmanFilter.py
+++ b/filterpy/kalman/CubatureKalmanFilter.py
@@ -256,7 +256,7 @@ class CubatureKalmanFilter(object):
         self.fx = fx
         self.x_mean = x_mean_fn
         self.z_mean = z_mean_fn
-        self.y = 0
+        self.y = np.zeros((dim_z, 1))
         self.z = np.array([[None]*self.dim_z]).T
         self.S = np.zeros((dim_z, dim_z)) # system uncertainty
         self.SI = np.zeros((dim_z, dim_z)) # inverse system uncertainty
-- 
2.43.0


From b2c3147c835dd0fd5ef84bb0cd6bea64e7003aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:43 +0000
Subject: [PATCH 42/64] fix: MMAEFilterBank.predict without control corrupted
 the state of filters with B

---
 filterpy/kalman/mmae.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/filterpy/kalman/mmae.py b/filterpy/kalman/mmae.py
index 078e007..ded39c3 100644
--- a/filterpy/kalman/mmae.py
+++ b/filterpy/kalman/mmae.py
@@ -151,7 +151,10 @@ class MMAEFilterBank(object):
         """
 
         for f in self.filters:
-            f.predict(u)
+            if np.isscalar(u) and u == 0:
+                f.predict()
+            else:
+                f.predict(u)
 
         self._compute_state_estimate()
 
-- 
2.43.0


From 2c470307afde2eda9ba7795cf61ad771c04d22c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:12 +0000
Subject: [PATCH 43/64] fix: KalmanFilter.batch_filter with a single matrix for
 Hs filtered only the first epochs

---
 filterpy/kalman/kalman_filter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index da211c4..f836d03 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -948,6 +948,8 @@ class KalmanFilter(object):
             Qs = [self.Q] * n
         if Hs is None:
             Hs = [self.H] * n
+        elif isinstance(Hs, np.ndarray) and Hs.shape == (self.dim_z, self.dim_x):
+            Hs = [Hs] * n
         if Rs is None:
             Rs = [self.R] * n
         if Bs is None:
-- 
2.43.0


From e671da12c7ca117e176e14115b0fcefe941bab10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:14 +0000
Subject: [PATCH 44/64] fix: NEES rejected the lists it documents

---
 filterpy/stats/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/stats/stats.py b/filterpy/stats/stats.py
index fa0713e..ed581f8 100644
--- a/filterpy/stats/stats.py
+++ b/filterpy/stats/stats.py
@@ -1172,7 +1172,7 @@ def NEES(xs, est_xs, ps):
 
     """
 
-    est_err = xs - est_xs
+    est_err = np.asarray(xs) - np.asarray(est_xs)
     errs = []
     for x, p in zip(est_err, ps):
         errs.append(np.dot(x.T, linalg.inv(p)).dot(x))
-- 
2.43.0


From 50409653e7c6afb1a8e8b5c509a6fd8276709dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:41 +0000
Subject: [PATCH 45/64] fix: CubatureKalmanFilter covariance lost all precision
 for states far from the origin

---
 filterpy/kalman/CubatureKalmanFilter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/kalman/CubatureKalmanFilter.py b/filterpy/kalman/CubatureKalmanFilter.py
index 2bb27b3..b93d2c5 100644
--- a/filterpy/kalman/CubatureKalmanFilter.py
+++ b/filterpy/kalman/CubatureKalmanFilter.py
@@ -90,7 +90,7 @@ def ckf_transform(Xs, Q):
     P = np.zeros((n, n))
     xf = x.flatten()
     for k in range(m):
-        P += np.outer(Xs[k], Xs[k]) - np.outer(xf, xf)
+        P += np.outer(Xs[k] - xf, Xs[k] - xf)
 
     P *= 1 / m
     P += Q
-- 
2.43.0


From 3009e2b5a2b6dd9756223a5b686cd042b3a77b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:09 +0000
Subject: [PATCH 46/64] fix: InformationFilter.predict used a stale inverse
 when F was modified in place

---
 filterpy/kalman/information_filter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/filterpy/kalman/information_filter.py b/filterpy/kalman/information_filter.py
index 8ca5eb4..e784118 100644
--- a/filterpy/kalman/information_filter.py
+++ b/filterpy/kalman/information_filter.py
@@ -259,6 +259,8 @@ class InformationFilter(object):
 
         # x = Fx + Bu
 
+        # F may have been modified in place since it was assigned
+        self._F_inv = self.inv(self._F)
         A = dot(self._F_inv.T, self.P_inv).dot(self._F_inv)
         #pylint: disable=bare-except
         try:
-- 
2.43.0


From 05ff838a308742bfac8a4494418598f658f3a9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:08 +0000
Subject: [PATCH 47/64] fix: CubatureKalmanFilter ignored its mean and residual
 functions

x_mean_fn, z_mean_fn and residual_x were stored but never used, and
residual_z was used for the innovation only, so angle-valued components
were averaged and subtracted as plain numbers.
---
 filterpy/kalman/CubatureKalmanFilter.py | 43 +++++++++++++++++--------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/filterpy/kalman/CubatureKalmanFilter.py b/filterpy/kalman/CubatureKalmanFilter.py
index b93d2c5..c0c5a91 100644
--- a/filterpy/kalman/CubatureKalmanFilter.py
+++ b/filterpy/kalman/CubatureKalmanFilter.py
@@ -23,7 +23,7 @@ from copy import deepcopy
 from math import log, exp, sqrt
 import sys
 import numpy as np
-from numpy import eye, zeros, dot, isscalar
+from numpy import array, eye, zeros, dot, isscalar
 from scipy.linalg import inv, cholesky
 from filterpy.stats import logpdf
 from filterpy.common import pretty_str, outer_product_sum, reshape_z
@@ -61,7 +61,7 @@ def spherical_radial_sigmas(x, P):
     return sigmas
 
 
-def ckf_transform(Xs, Q):
+def ckf_transform(Xs, Q, mean_fn=None, residual_fn=None):
     """
     Compute mean and covariance of array of cubature points.
 
@@ -74,6 +74,14 @@ def ckf_transform(Xs, Q):
     Q : ndarray
         Noise covariance
 
+    mean_fn : callable (points, weights), optional
+        Function that computes the mean of the points, if it is not the
+        weighted sum (e.g. for angles)
+
+    residual_fn : callable (x, y), optional
+        Function that computes the difference of two column vectors, if it
+        is not the plain difference (e.g. for angles)
+
     Returns
     -------
 
@@ -86,11 +94,18 @@ def ckf_transform(Xs, Q):
 
     m, n = Xs.shape
 
-    x = sum(Xs, 0)[:, None] / m
+    if mean_fn is None:
+        x = sum(Xs, 0)[:, None] / m
+    else:
+        x = np.reshape(mean_fn(Xs, np.full(m, 1. / m)), (n, 1))
+
+    if residual_fn is None:
+        residual_fn = np.subtract
+
     P = np.zeros((n, n))
-    xf = x.flatten()
     for k in range(m):
-        P += np.outer(Xs[k] - xf, Xs[k] - xf)
+        y = np.ravel(residual_fn(Xs[k][:, None], x))
+        P += np.outer(y, y)
 
     P *= 1 / m
     P += Q
@@ -163,8 +178,8 @@ class CubatureKalmanFilter(object):
         Function that computes the residual (difference) between x and y.
         You will have to supply this if your state variable cannot support
         subtraction, such as angles (359-1 degreees is 2, not 358). x and y
-        are state vectors, not scalars. One is for the state variable,
-        the other is for the measurement state.
+        are state vectors (columns), not scalars. One is for the state
+        variable, the other is for the measurement state.
 
         .. code-block:: Python
 
@@ -320,7 +335,8 @@ class CubatureKalmanFilter(object):
         for k in range(self._num_sigmas):
             self.sigmas_f[k] = self.fx(sigmas[k], dt, *fx_args)
 
-        self.x, self.P = ckf_transform(self.sigmas_f, self.Q)
+        self.x, self.P = ckf_transform(self.sigmas_f, self.Q,
+                                       self.x_mean, self.residual_x)
 
         # update cubature points to reflect the process noise added to P
         self.sigmas_f = spherical_radial_sigmas(self.x, self.P)
@@ -368,17 +384,18 @@ class CubatureKalmanFilter(object):
             self.sigmas_h[k] = self.hx(self.sigmas_f[k], *hx_args)
 
         # mean and covariance of prediction passed through unscented transform
-        zp, self.S = ckf_transform(self.sigmas_h, R)
+        zp, self.S = ckf_transform(self.sigmas_h, R, self.z_mean, self.residual_z)
         self.SI = inv(self.S)
 
         # compute cross variance of the state and the measurements
         m = self._num_sigmas  # literaure uses m for scaling factor
-        xf = self.x.flatten()
-        zpf = zp.flatten()
-        Pxz = outer_product_sum(self.sigmas_f - xf, self.sigmas_h - zpf) / m
+        x = np.reshape(self.x, (self.dim_x, 1))
+        dx = array([np.ravel(self.residual_x(s[:, None], x)) for s in self.sigmas_f])
+        dz = array([np.ravel(self.residual_z(s[:, None], zp)) for s in self.sigmas_h])
+        Pxz = outer_product_sum(dx, dz) / m
 
         self.K = dot(Pxz, self.SI)        # Kalman gain
-        self.y = self.residual_z(z, zp)   # residual
+        self.y = np.reshape(self.residual_z(z, zp), (self.dim_z, 1)) # residual
 
         self.x = self.x + dot(self.K, self.y)
         self.P = self.P - dot(self.K, self.S).dot(self.K.T) # pylint: disable=no-member
-- 
2.43.0


From fd7495d848fcec9de8a481b7f10b11f9521f6a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:19 +0000
Subject: [PATCH 48/64] fix: InformationFilter lost the estimate while its
 information matrix was singular

Starting without information (the advertised use of the filter) was
broken: predict left P_inv unchanged, mixed up state and information
vector, and update raised LinAlgError before the first predict.
(FPF' + Q)^-1 is now computed without inverting P_inv, and the gain is a
solution of its defining equation also when that is singular.
---
 filterpy/kalman/information_filter.py | 111 +++++++++++---------------
 1 file changed, 47 insertions(+), 64 deletions(-)

diff --git a/filterpy/kalman/information_filter.py b/filterpy/kalman/information_filter.py
index e784118..3b7fd02 100644
--- a/filterpy/kalman/information_filter.py
+++ b/filterpy/kalman/information_filter.py
@@ -159,7 +159,6 @@ class InformationFilter(object):
 
         # identity matrix. Do not alter this.
         self._I = np.eye(dim_x)
-        self._no_information = False
 
         self.compute_log_likelihood = compute_log_likelihood
         self.log_likelihood = math.log(sys.float_info.min)
@@ -207,39 +206,44 @@ class InformationFilter(object):
         P_inv = self.P_inv
         x = self.x
 
-        if self._no_information:
-            self.x = dot(P_inv, x) + dot(H_T, R_inv).dot(z)
-            self.P_inv = P_inv + dot(H_T, R_inv).dot(H)
-            self.log_likelihood = math.log(sys.float_info.min)
-            self.likelihood = sys.float_info.min
+        # y = z - Hx
+        # error (residual) between measurement and prediction
+        self.y = z - dot(H, x)
 
-        else:
-            # y = z - Hx
-            # error (residual) between measurement and prediction
-            self.y = z - dot(H, x)
-
-            # S = HPH' + R
-            # project system uncertainty into measurement space
-            self.S = P_inv + dot(H_T, R_inv).dot(H)
-            self.K = dot(self.inv(self.S), H_T).dot(R_inv)
-
-            # x = x + Ky
-            # predict new x with residual scaled by the kalman gain
-            self.x = x + dot(self.K, self.y)
-            self.P_inv = P_inv + dot(H_T, R_inv).dot(H)
-
-            self.z = np.copy(reshape_z(z, self.dim_z, np.ndim(self.x)))
-
-            if self.compute_log_likelihood:
-                # inverse of the innovation covariance, (HPH' + R)^-1
-                SI = R_inv - dot(R_inv, H).dot(self.K)
-                y = np.ravel(self.y)
-                _, logdet = np.linalg.slogdet(SI)
+        # S = HPH' + R
+        # project system uncertainty into measurement space
+        self.S = P_inv + dot(H_T, R_inv).dot(H)
+        HTR = dot(H_T, R_inv)
+        try:
+            self.K = dot(self.inv(self.S), HTR)
+            solved = np.allclose(dot(self.S, self.K), HTR, 1e-9, 1e-9*np.max(np.abs(HTR)))
+        except np.linalg.LinAlgError:
+            solved = False
+        if not solved:
+            # there is no information yet about part of the state
+            self.K = np.linalg.lstsq(self.S, HTR, rcond=None)[0]
+
+        # x = x + Ky
+        # predict new x with residual scaled by the kalman gain
+        self.x = x + dot(self.K, self.y)
+        self.P_inv = P_inv + dot(H_T, R_inv).dot(H)
+
+        self.z = np.copy(reshape_z(z, self.dim_z, np.ndim(self.x)))
+
+        if self.compute_log_likelihood:
+            # inverse of the innovation covariance, (HPH' + R)^-1
+            SI = R_inv - dot(R_inv, H).dot(self.K)
+            y = np.ravel(self.y)
+            sign, logdet = np.linalg.slogdet(SI)
+            if sign <= 0 or logdet < np.linalg.slogdet(np.atleast_2d(R_inv))[1] - 32:
+                # no prior information about the measurement: no likelihood
+                self.log_likelihood = math.log(sys.float_info.min)
+            else:
                 self.log_likelihood = 0.5 * (
                     logdet - dot(y, SI).dot(y) - len(y) * math.log(2 * math.pi))
-                self.likelihood = math.exp(self.log_likelihood)
-                if self.likelihood == 0:
-                    self.likelihood = sys.float_info.min
+            self.likelihood = math.exp(self.log_likelihood)
+            if self.likelihood == 0:
+                self.likelihood = sys.float_info.min
 
         # save measurement and posterior state
         self.z = deepcopy(z)
@@ -262,39 +266,18 @@ class InformationFilter(object):
         # F may have been modified in place since it was assigned
         self._F_inv = self.inv(self._F)
         A = dot(self._F_inv.T, self.P_inv).dot(self._F_inv)
-        #pylint: disable=bare-except
-        try:
-            AI = self.inv(A)
-            invertable = True
-            if self._no_information:
-                try:
-                    self.x = dot(self.inv(self.P_inv), self.x)
-                except:
-                    self.x = dot(0, self.x)
-                self._no_information = False
-        except:
-            invertable = False
-            self._no_information = True
-
-        if invertable:
-            self.x = dot(self._F, self.x)
-            if not np.isscalar(u) or u != 0:
-                self.x = self.x + dot(self.B, u)
-            self.P_inv = self.inv(AI + self.Q)
-
-            # save priors
-            self.P_inv_prior = np.copy(self.P_inv)
-            self.x_prior = np.copy(self.x)
-        else:
-            I_PF = self._I - dot(self.P_inv, self._F_inv)
-            FTI = self.inv(self._F.T)
-            FTIX = dot(FTI, self.x)
-            AQI = self.inv(A + self.Q)
-            self.x = dot(FTI, dot(I_PF, AQI).dot(FTIX))
-
-            # save priors
-            self.x_prior = np.copy(self.x)
-            self.P_inv_prior = np.copy(AQI)
+
+        self.x = dot(self._F, self.x)
+        if not np.isscalar(u) or u != 0:
+            self.x = self.x + dot(self.B, u)
+
+        # (FPF' + Q)^-1, also when there is no information about part of
+        # the state, i.e. when P_inv has no inverse
+        self.P_inv = dot(self.inv(self._I + dot(A, self.Q)), A)
+
+        # save priors
+        self.x_prior = np.copy(self.x)
+        self.P_inv_prior = np.copy(self.P_inv)
 
     def batch_filter(self, zs, Rs=None, update_first=False, saver=None):
         """ Batch processes a sequences of measurements.
-- 
2.43.0


From eb15ae8e9cd8df966004dd3603caf66f10089ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:42 +0000
Subject: [PATCH 49/64] fix: SquareRootKalmanFilter did not check dim_x

---
 filterpy/kalman/square_root.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/filterpy/kalman/square_root.py b/filterpy/kalman/square_root.py
index b9acf0b..fe0a877 100644
--- a/filterpy/kalman/square_root.py
+++ b/filterpy/kalman/square_root.py
@@ -125,12 +125,12 @@ class SquareRootKalmanFilter(object):
     """
 
     def __init__(self, dim_x, dim_z, dim_u=0):
-        if dim_z < 1:
+        if dim_x < 1:
             raise ValueError('dim_x must be 1 or greater')
         if dim_z < 1:
-            raise ValueError('dim_x must be 1 or greater')
+            raise ValueError('dim_z must be 1 or greater')
         if dim_u < 0:
-            raise ValueError('dim_x must be 0 or greater')
+            raise ValueError('dim_u must be 0 or greater')
 
         self.dim_x = dim_x
         self.dim_z = dim_z
-- 
2.43.0


From 5d2865012041f7b8673c6bbbb66e5add3bc6431e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:00 +0000
Subject: [PATCH 50/64] fix: plot_gaussian passed its arguments in the wrong
 positions

---
 filterpy/stats/stats.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/filterpy/stats/stats.py b/filterpy/stats/stats.py
index ed581f8..d0df8cd 100644
--- a/filterpy/stats/stats.py
+++ b/filterpy/stats/stats.py
@@ -665,8 +665,9 @@ def plot_gaussian(mean=0., variance=1.,
                   'A Gaussian can be plotted as a PDF or CDF. This '\
                   'plots a PDF. Use plot_gaussian_pdf() instead,',
                   DeprecationWarning)
-    return plot_gaussian_pdf(mean, variance, ax, mean_line, xlim, ylim, xlabel,
-                             ylabel, label)
+    return plot_gaussian_pdf(mean, variance, ax=ax, mean_line=mean_line,
+                             xlim=xlim, ylim=ylim, xlabel=xlabel,
+                             ylabel=ylabel, label=label)
 
 
 def covariance_ellipse(P, deviations=1):
-- 
2.43.0


From 25cfb85aba4f3ecf298b8add59752f75abc560a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:00 +0000
Subject: [PATCH 51/64] fix: plot_gaussian_pdf rejected std unless variance was
 set to None

---
 filterpy/stats/stats.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/filterpy/stats/stats.py b/filterpy/stats/stats.py
index d0df8cd..815efcc 100644
--- a/filterpy/stats/stats.py
+++ b/filterpy/stats/stats.py
@@ -564,7 +564,7 @@ def plot_gaussian_cdf(mean=0., variance=1.,
 
 
 def plot_gaussian_pdf(mean=0.,
-                      variance=1.,
+                      variance=None,
                       std=None,
                       ax=None,
                       mean_line=False,
@@ -620,11 +620,8 @@ def plot_gaussian_pdf(mean=0.,
     if variance is not None and std is not None:
         raise ValueError('Specify only one of variance and std')
 
-    if variance is None and std is None:
-        raise ValueError('Specify variance or std')
-
-    if variance is not None:
-        std = math.sqrt(variance)
+    if std is None:
+        std = 1. if variance is None else math.sqrt(variance)
 
     n = norm(mean, std)
 
-- 
2.43.0


From 9a56cf75803c476b0588063b978fb4105328c4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:00 +0000
Subject: [PATCH 52/64] fix: plot_gaussian_pdf drew the mean line on the
 current axes instead of the given ones

---
 filterpy/stats/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/stats/stats.py b/filterpy/stats/stats.py
index 815efcc..a5435cf 100644
--- a/filterpy/stats/stats.py
+++ b/filterpy/stats/stats.py
@@ -636,7 +636,7 @@ def plot_gaussian_pdf(mean=0.,
         ax.set_ylim(ylim)
 
     if mean_line:
-        plt.axvline(mean)
+        ax.axvline(mean)
 
     if xlabel is not None:
         ax.set_xlabel(xlabel)
-- 
2.43.0


From c8db6183f3a0903c8b44e370a08911bdf209b1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:33 +0000
Subject: [PATCH 53/64] fix: __repr__ of several filters showed the wrong
 attributes

---
 filterpy/gh/gh_filter.py               | 4 ++--
 filterpy/hinfinity/hinfinity_filter.py | 2 +-
 filterpy/kalman/EKF.py                 | 2 +-
 filterpy/kalman/fading_memory.py       | 4 ++--
 filterpy/kalman/fixed_lag_smoother.py  | 4 ++--
 filterpy/kalman/mmae.py                | 2 +-
 6 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/filterpy/gh/gh_filter.py b/filterpy/gh/gh_filter.py
index 4e6bef2..6776c1c 100644
--- a/filterpy/gh/gh_filter.py
+++ b/filterpy/gh/gh_filter.py
@@ -843,7 +843,7 @@ class GHKFilter(object):
 
     def __repr__(self):
         return '\n'.join([
-            'GHFilter object',
+            'GHKFilter object',
             pretty_str('dt', self.dt),
             pretty_str('g', self.g),
             pretty_str('h', self.h),
@@ -853,7 +853,7 @@ class GHKFilter(object):
             pretty_str('ddx', self.ddx),
             pretty_str('x_prediction', self.x_prediction),
             pretty_str('dx_prediction', self.dx_prediction),
-            pretty_str('ddx_prediction', self.dx_prediction),
+            pretty_str('ddx_prediction', self.ddx_prediction),
             pretty_str('y', self.y),
             pretty_str('z', self.z)
             ])
diff --git a/filterpy/hinfinity/hinfinity_filter.py b/filterpy/hinfinity/hinfinity_filter.py
index 731c2ad..e75ec9a 100644
--- a/filterpy/hinfinity/hinfinity_filter.py
+++ b/filterpy/hinfinity/hinfinity_filter.py
@@ -284,7 +284,7 @@ class HInfinityFilter(object):
             pretty_str('dim_x', self.dim_x),
             pretty_str('dim_z', self.dim_z),
             pretty_str('dim_u', self.dim_u),
-            pretty_str('gamma', self.dim_u),
+            pretty_str('gamma', self.gamma),
             pretty_str('x', self.x),
             pretty_str('P', self.P),
             pretty_str('F', self.F),
diff --git a/filterpy/kalman/EKF.py b/filterpy/kalman/EKF.py
index 56e6638..2a44679 100644
--- a/filterpy/kalman/EKF.py
+++ b/filterpy/kalman/EKF.py
@@ -366,7 +366,7 @@ class ExtendedKalmanFilter(object):
 
     def __repr__(self):
         return '\n'.join([
-            'KalmanFilter object',
+            'ExtendedKalmanFilter object',
             pretty_str('x', self.x),
             pretty_str('P', self.P),
             pretty_str('x_prior', self.x_prior),
diff --git a/filterpy/kalman/fading_memory.py b/filterpy/kalman/fading_memory.py
index c4d83b5..510aa50 100644
--- a/filterpy/kalman/fading_memory.py
+++ b/filterpy/kalman/fading_memory.py
@@ -448,8 +448,8 @@ class FadingKalmanFilter(object):
     def __repr__(self):
         return '\n'.join([
             'FadingKalmanFilter object',
-            pretty_str('dim_x', self.x),
-            pretty_str('dim_z', self.x),
+            pretty_str('dim_x', self.dim_x),
+            pretty_str('dim_z', self.dim_z),
             pretty_str('dim_u', self.dim_u),
             pretty_str('x', self.x),
             pretty_str('P', self.P),
diff --git a/filterpy/kalman/fixed_lag_smoother.py b/filterpy/kalman/fixed_lag_smoother.py
index d265fa1..5be5d28 100644
--- a/filterpy/kalman/fixed_lag_smoother.py
+++ b/filterpy/kalman/fixed_lag_smoother.py
@@ -313,8 +313,8 @@ class FixedLagSmoother(object):
     def __repr__(self):
         return '\n'.join([
             'FixedLagSmoother object',
-            pretty_str('dim_x', self.x),
-            pretty_str('dim_z', self.x),
+            pretty_str('dim_x', self.dim_x),
+            pretty_str('dim_z', self.dim_z),
             pretty_str('N', self.N),
             pretty_str('x', self.x),
             pretty_str('x_s', self.x_s),
diff --git a/filterpy/kalman/mmae.py b/filterpy/kalman/mmae.py
index ded39c3..4964c32 100644
--- a/filterpy/kalman/mmae.py
+++ b/filterpy/kalman/mmae.py
@@ -235,5 +235,5 @@ class MMAEFilterBank(object):
             pretty_str('dim_x', self.dim_x),
             pretty_str('x', self.x),
             pretty_str('P', self.P),
-            pretty_str('log-p', self.p),
+            pretty_str('p', self.p),
             ])
-- 
2.43.0


From 8fc0937a0b4a7a3f6e9a252dc8d07a0f48ff8d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:26 +0000
Subject: [PATCH 54/64] fix: test_matrix_dimensions accepted a scalar z for a
 vector measurement

---
 filterpy/kalman/kalman_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index f836d03..e425de1 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -1385,7 +1385,7 @@ class KalmanFilter(object):
         Hx = dot(H, x)
 
         if z_shape == (): # scalar or np.array(scalar)
-            assert Hx.ndim == 1 or shape(Hx) == (1, 1), \
+            assert shape(Hx) in [(1,), (1, 1)], \
             "shape of z should be {}, not {} for the given H".format(
                 shape(Hx), z_shape)
 
-- 
2.43.0


From 4cce18fc46c46dd5b039f306018da8a51837998e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:26 +0000
Subject: [PATCH 55/64] fix: HInfinityFilter never saved its gain in K

---
 filterpy/hinfinity/hinfinity_filter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/filterpy/hinfinity/hinfinity_filter.py b/filterpy/hinfinity/hinfinity_filter.py
index e75ec9a..4f2fc9b 100644
--- a/filterpy/hinfinity/hinfinity_filter.py
+++ b/filterpy/hinfinity/hinfinity_filter.py
@@ -125,6 +125,7 @@ class HInfinityFilter(object):
 
         K = dot(F, PL).dot(HTVI)
 
+        self.K = K
         self.y = z - dot(H, x)
 
         # x = x + Ky
-- 
2.43.0


From 268cfe6377d7e5b81e77e08349ca5ecfe5af226a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:56 +0000
Subject: [PATCH 56/64] fix: UnscentedKalmanFilter ignored sqrt_fn

---
 filterpy/kalman/UKF.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/filterpy/kalman/UKF.py b/filterpy/kalman/UKF.py
index 8e52bad..be43322 100644
--- a/filterpy/kalman/UKF.py
+++ b/filterpy/kalman/UKF.py
@@ -18,7 +18,7 @@ for more information.
 
 from __future__ import (absolute_import, division)
 
-from copy import deepcopy
+from copy import copy, deepcopy
 from math import log, exp, sqrt
 import sys
 import numpy as np
@@ -320,6 +320,10 @@ class UnscentedKalmanFilter(object):
             self.msqrt = cholesky
         else:
             self.msqrt = sqrt_fn
+            # the sigma points are computed with this square root; leave
+            # the caller's object alone, it may serve other filters
+            self.points_fn = copy(points)
+            self.points_fn.sqrt = sqrt_fn
 
         # weights for the means and covariances.
         self.Wm, self.Wc = points.Wm, points.Wc
-- 
2.43.0


From 122028356d5782be2256b4343f2955e6191a18d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:22 +0000
Subject: [PATCH 57/64] fix: KalmanFilter.update_sequential ignored the inverse
 function of the filter

The documented attribute inv (e.g. np.linalg.pinv) was not used by
sequential updates, which failed or gave NaN for a singular partial
innovation covariance.
---
 filterpy/kalman/kalman_filter.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index e425de1..0c9c027 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -807,10 +807,7 @@ class KalmanFilter(object):
         # project system uncertainty into the measurement subspace
         S_i = dot(H_i, PHT) + R_i
 
-        if length == 1:
-            K_i = PHT * (1.0 / S_i)
-        else:
-            K_i = dot(PHT, linalg.inv(S_i))
+        K_i = dot(PHT, self.inv(S_i))
 
         self.K[:,start:stop] = K_i
         I_KH = self._I - np.dot(K_i, H_i)
-- 
2.43.0


From cad13d48adcdeb46dcd1fdac2e1805940aacaa90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:22 +0000
Subject: [PATCH 58/64] fix: RTS smoothers failed on integer means or
 covariances

The results were written into copies that kept the integer type of the
arguments.
---
 filterpy/kalman/UKF.py           | 2 +-
 filterpy/kalman/kalman_filter.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/filterpy/kalman/UKF.py b/filterpy/kalman/UKF.py
index be43322..536d538 100644
--- a/filterpy/kalman/UKF.py
+++ b/filterpy/kalman/UKF.py
@@ -716,7 +716,7 @@ class UnscentedKalmanFilter(object):
 
         num_sigmas = self._num_sigmas
 
-        xs, ps = Xs.copy(), Ps.copy()
+        xs, ps = Xs.astype(float), Ps.astype(float)
         sigmas_f = zeros((num_sigmas, dim_x))
 
         for k in reversed(range(n-1)):
diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index 0c9c027..f97f934 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -1065,7 +1065,7 @@ class KalmanFilter(object):
         # smoother gain
         K = zeros((n, dim_x, dim_x))
 
-        x, P, Pp = Xs.copy(), Ps.copy(), Ps.copy()
+        x, P, Pp = Xs.astype(float), Ps.astype(float), Ps.astype(float)
         for k in range(n-2, -1, -1):
             Pp[k] = dot(dot(Fs[k+1], P[k]), Fs[k+1].T) + Qs[k+1]
 
@@ -1848,7 +1848,7 @@ def rts_smoother(Xs, Ps, Fs, Qs):
 
     # smoother gain
     K = zeros((n, dim_x, dim_x))
-    x, P, pP = Xs.copy(), Ps.copy(), Ps.copy()
+    x, P, pP = Xs.astype(float), Ps.astype(float), Ps.astype(float)
 
     for k in range(n-2, -1, -1):
         pP[k] = dot(dot(Fs[k+1], P[k]), Fs[k+1].T) + Qs[k+1]
-- 
2.43.0


From 9d36735df70b0cf85b93c4c7f2f0820c57a1b62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 59/64] fix: FixedLagSmoother failed with an integer state and
 a real control input

---
 filterpy/kalman/fixed_lag_smoother.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filterpy/kalman/fixed_lag_smoother.py b/filterpy/kalman/fixed_lag_smoother.py
index 5be5d28..8c99283 100644
--- a/filterpy/kalman/fixed_lag_smoother.py
+++ b/filterpy/kalman/fixed_lag_smoother.py
@@ -173,7 +173,7 @@ class FixedLagSmoother(object):
         # predict step of normal Kalman filter
         x_pre = dot(F, x)
         if u is not None:
-            x_pre += dot(B, u)
+            x_pre = x_pre + dot(B, u)
 
         P = dot(F, P).dot(F.T) + Q
 
@@ -270,7 +270,7 @@ class FixedLagSmoother(object):
             # predict step of normal Kalman filter
             x_pre = dot(F, x)
             if us is not None:
-                x_pre += dot(B, us[k])
+                x_pre = x_pre + dot(B, us[k])
 
             P = dot(F, P).dot(F.T) + Q
 
-- 
2.43.0


From 25ab6de14c378d6a22b6bca71e9b897609f74b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:37 +0000
Subject: [PATCH 60/64] fix: scalar R of EKF/UKF.update had the filter's own
 size for sensors of another size

---
 filterpy/kalman/EKF.py |  6 +++---
 filterpy/kalman/UKF.py | 10 +++++-----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/filterpy/kalman/EKF.py b/filterpy/kalman/EKF.py
index 2a44679..fcfc777 100644
--- a/filterpy/kalman/EKF.py
+++ b/filterpy/kalman/EKF.py
@@ -259,16 +259,16 @@ class ExtendedKalmanFilter(object):
         if not isinstance(hx_args, tuple):
             hx_args = (hx_args,)
 
+        H = HJacobian(self.x, *args)
+
         if R is None:
             R = self.R
         elif np.isscalar(R):
-            R = eye(self.dim_z) * R
+            R = eye(H.shape[0]) * R
 
         if np.isscalar(z) and self.dim_z == 1:
             z = np.asarray([z], float)
 
-        H = HJacobian(self.x, *args)
-
         PHT = dot(self.P, H.T)
         self.S = dot(H, PHT) + R
         self.SI = linalg.inv(self.S)
diff --git a/filterpy/kalman/UKF.py b/filterpy/kalman/UKF.py
index 536d538..e203e6b 100644
--- a/filterpy/kalman/UKF.py
+++ b/filterpy/kalman/UKF.py
@@ -455,11 +455,6 @@ class UnscentedKalmanFilter(object):
         if UT is None:
             UT = unscented_transform
 
-        if R is None:
-            R = self.R
-        elif isscalar(R):
-            R = eye(self._dim_z) * R
-
         # pass prior sigmas through h(x) to get measurement sigmas
         # the shape of sigmas_h will vary if the shape of z varies, so
         # recreate each time
@@ -469,6 +464,11 @@ class UnscentedKalmanFilter(object):
 
         self.sigmas_h = np.atleast_2d(sigmas_h)
 
+        if R is None:
+            R = self.R
+        elif isscalar(R):
+            R = eye(self.sigmas_h.shape[1]) * R
+
         # mean and covariance of prediction passed through unscented transform
         zp, self.S = UT(self.sigmas_h, self.Wm, self.Wc, R, self.z_mean, self.residual_z)
         self.SI = self.inv(self.S)
-- 
2.43.0


From bff2020b67031e7e51c599e7e3f8131c45306a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:37 +0000
Subject: [PATCH 61/64] fix: scalar R with an H of other height in
 KalmanFilter.update

---
 filterpy/kalman/kalman_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index f97f934..442045d 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -522,7 +522,7 @@ class KalmanFilter(object):
         if R is None:
             R = self.R
         elif isscalar(R):
-            R = eye(self.dim_z) * R
+            R = eye(self.dim_z if H is None else H.shape[0]) * R
 
         if H is None:
             z = reshape_z(z, self.dim_z, self.x.ndim)
-- 
2.43.0


From f810d9bc4d7fcfdb737dc3887d31b563d62a80ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:37 +0000
Subject: [PATCH 62/64] fix: reading a KalmanFilter failed after a missing
 measurement following an H of other height

---
 filterpy/kalman/kalman_filter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index 442045d..399eada 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -516,7 +516,7 @@ class KalmanFilter(object):
             self.z = np.array([[None]*self.dim_z]).T
             self.x_post = self.x.copy()
             self.P_post = self.P.copy()
-            self.y = zeros((self.dim_z, 1))
+            self.y = zeros((len(self.S), 1))
             return
 
         if R is None:
@@ -647,7 +647,7 @@ class KalmanFilter(object):
             self.z = np.array([[None]*self.dim_z]).T
             self.x_post = self.x.copy()
             self.P_post = self.P.copy()
-            self.y = zeros((self.dim_z, 1))
+            self.y = zeros((len(self.S), 1))
             return
 
         z = reshape_z(z, self.dim_z, self.x.ndim)
@@ -708,7 +708,7 @@ class KalmanFilter(object):
             self.z = np.array([[None]*self.dim_z]).T
             self.x_post = self.x.copy()
             self.P_post = self.P.copy()
-            self.y = zeros((self.dim_z, 1))
+            self.y = zeros((len(self.S), 1))
             return
 
         if R is None:
-- 
2.43.0


From 06e8a058c92d93e3050732d2bae8e3663245aed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:39 +0000
Subject: [PATCH 63/64] fix: logpdf ignored components that are small compared
 with the others

---
 filterpy/stats/stats.py | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/filterpy/stats/stats.py b/filterpy/stats/stats.py
index a5435cf..374cb18 100644
--- a/filterpy/stats/stats.py
+++ b/filterpy/stats/stats.py
@@ -149,6 +149,42 @@ def logpdf(x, mean=None, cov=1, allow_singular=True):
 
     flat_x = np.asarray(x).flatten()
 
+    # scipy takes directions whose variance is tiny compared to the largest
+    # one for singular. Standardize, so that components which are merely in
+    # different units are not.
+    log_scale = 0.
+    std = None
+    if flat_mean is None or flat_mean.size == flat_x.size:
+        std = _standard_deviations(cov, flat_x.size)
+    if std is not None:
+        cov = cov / np.outer(std, std)
+        flat_x = flat_x / std
+        if flat_mean is not None:
+            flat_mean = flat_mean / std
+        log_scale = np.log(std).sum()
+
+    return _logpdf(flat_x, flat_mean, cov, allow_singular) - log_scale
+
+
+def _standard_deviations(cov, n):
+    """
+    Returns the standard deviations of the n > 1 components of a Gaussian with
+    covariance cov, or None if cov is not a matrix or is singular.
+    """
+
+    if n < 2 or sp.issparse(cov) or np.shape(cov) != (n, n):
+        return None
+
+    var = np.diag(cov)
+    if not np.isfinite(cov).all() or not (var > 0).all():
+        return None
+
+    std = np.sqrt(var)
+    w = np.linalg.eigvalsh(cov / np.outer(std, std))
+    return std if w[0] > 1e6 * np.finfo(float).eps * w[-1] else None
+
+
+def _logpdf(flat_x, flat_mean, cov, allow_singular):
     if _support_singular:
         return multivariate_normal.logpdf(flat_x, flat_mean, cov, allow_singular)
     return multivariate_normal.logpdf(flat_x, flat_mean, cov)
-- 
2.43.0


From 11eb840ca5b379bb60a3b58c89fba07a2e17b131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:53 +0000
Subject: [PATCH 64/64] fix: SquareRootKalmanFilter ignored measurements that
 are small compared with the others

---
 filterpy/kalman/square_root.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/filterpy/kalman/square_root.py b/filterpy/kalman/square_root.py
index fe0a877..edafc0a 100644
--- a/filterpy/kalman/square_root.py
+++ b/filterpy/kalman/square_root.py
@@ -207,7 +207,11 @@ class SquareRootKalmanFilter(object):
 
         _, r_decomp = qr(M)
         self.S1_2 = r_decomp[0:dim_z, 0:dim_z].T
-        self.SI1_2 = pinv(self.S1_2)
+        # pinv takes what is tiny compared to the rest for singular, so scale
+        # the rows: they may be in very different units
+        std = np.sqrt((self.S1_2**2).sum(axis=1))
+        std[std == 0] = 1.
+        self.SI1_2 = pinv(self.S1_2 / std[:, np.newaxis]) / std
         self.K = dot(r_decomp[0:dim_z, dim_z:].T, self.SI1_2)
 
         # y = z - Hx
-- 
2.43.0

