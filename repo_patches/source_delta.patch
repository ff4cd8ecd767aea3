From 27899ea30ad25f6c9424a64368d81ebf7ed0d125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:42 +0000
Subject: [PATCH 01/49] fix: takagi of a complex diagonal matrix returns a
 unitary that reconstructs the input

---
 thewalrus/decompositions.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/thewalrus/decompositions.py b/thewalrus/decompositions.py
index a0e6573..8ad1f0c 100644
--- a/thewalrus/decompositions.py
+++ b/thewalrus/decompositions.py
@@ -208,14 +208,11 @@ def takagi(A, svd_order=True, rtol=1e-16):
     if np.allclose(A, np.diag(np.diag(A)), rtol=rtol):
         d = np.diag(A)
         l = np.abs(d)
-        idx = np.argsort(l)
-        d = d[idx]
-        l = l[idx]
         U = np.diag(np.exp(1j * 0.5 * np.angle(d)))
-        U = U[::-1, :]
+        perm = np.argsort(l)
         if svd_order:
-            return l[::-1], U[:, ::-1]
-        return l, U
+            perm = perm[::-1]
+        return l[perm], U[:, perm]
 
     u, d, v = np.linalg.svd(A)
     U = u @ sqrtm((v @ np.conjugate(u)).T)
-- 
2.43.0


From f01c00cd8c578a69d49be64afcc86eb74a503b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:42 +0000
Subject: [PATCH 02/49] fix: hafnian and torontonian state samplers honour hbar

---
 thewalrus/samples.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/thewalrus/samples.py b/thewalrus/samples.py
index ea87ca9..902344f 100644
--- a/thewalrus/samples.py
+++ b/thewalrus/samples.py
@@ -154,7 +154,7 @@ def invert_permutation(p):
     return s
 
 
-def photon_means_order(mu, cov):
+def photon_means_order(mu, cov, hbar=2):
     r"""Give which mode is which ranking (from 0 to length of vector) according
     to the number of mean photons of each mode.
     Code contributed by `Jake F.F. Bulmer <https://github.com/jakeffbulmer/gbs>`_ based on
@@ -166,11 +166,13 @@ def photon_means_order(mu, cov):
         cov (array): a :math:`2N\times 2N` ``np.float64`` covariance matrix
             representing an :math:`N` mode quantum state. This can be obtained
             via the ``scovmavxp`` method of the Gaussian backend of Strawberry Fields.
+        hbar (float): (default 2) the value of :math:`\hbar` in the commutation
+            relation :math:`[\x,\p]=i\hbar`.
 
     Returns:
         order (array): vector telling which mode is which ranking on increasing mean number of photons.
     """
-    means = photon_number_mean_vector(mu, cov)
+    means = photon_number_mean_vector(mu, cov, hbar=hbar)
     order = [x for _, x in sorted(zip(means, range(len(means))))]
     return np.asarray(order)
 
@@ -226,7 +228,7 @@ def generate_hafnian_sample(cov, mean=None, hbar=2, cutoff=12, max_photons=8):
     if mu is None:
         mu = np.zeros(2 * M)
 
-    order = photon_means_order(mu, cov)
+    order = photon_means_order(mu, cov, hbar=hbar)
     order_inv = invert_permutation(order)
     oo = np.concatenate((order, order + M))
 
@@ -234,8 +236,8 @@ def generate_hafnian_sample(cov, mean=None, hbar=2, cutoff=12, max_photons=8):
     cov = cov[np.ix_(oo, oo)]
 
     T, sqrtW = decompose_cov(cov, hbar=hbar)
-    chol_T_I = np.linalg.cholesky(T + np.eye(2 * M))
-    B = Amat(T)[:M, :M]
+    chol_T_I = np.linalg.cholesky(T + hbar / 2 * np.eye(2 * M))
+    B = Amat(T, hbar=hbar)[:M, :M]
     det_outcomes = np.arange(cutoff + 1)
     det_pattern = np.zeros(M, dtype=int)
     pure_mu = mu + sqrtW @ np.random.normal(size=2 * M)
@@ -427,15 +429,15 @@ def generate_torontonian_sample(cov, mu=None, hbar=2, max_photons=30, fanout=10,
     M = cov.shape[0] // 2
     if mu is None:
         mu = np.zeros(2 * M)
-    order = photon_means_order(mu, cov)
+    order = photon_means_order(mu, cov, hbar=hbar)
     order_inv = invert_permutation(order)
     oo = np.concatenate((order, order + M))
 
     mu = mu[oo]
     cov = cov[np.ix_(oo, oo)]
     T, sqrtW = decompose_cov(cov, hbar=hbar)
-    chol_T_I = np.linalg.cholesky(T + np.eye(2 * M))
-    B = Amat(T)[:M, :M] / fanout
+    chol_T_I = np.linalg.cholesky(T + hbar / 2 * np.eye(2 * M))
+    B = Amat(T, hbar=hbar)[:M, :M] / fanout
 
     det_outcomes = np.arange(cutoff + 1)
 
-- 
2.43.0


From aade06cf3044120c7e2f3619d6efee82717e4c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:42 +0000
Subject: [PATCH 03/49] fix: reduced_gaussian respects the order of the
 requested modes and rejects mode N

---
 thewalrus/quantum/conversions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thewalrus/quantum/conversions.py b/thewalrus/quantum/conversions.py
index e979cd2..523fcfa 100644
--- a/thewalrus/quantum/conversions.py
+++ b/thewalrus/quantum/conversions.py
@@ -38,10 +38,10 @@ def reduced_gaussian(mu, cov, modes):
     if isinstance(modes, int):
         modes = [modes]
 
-    if np.any(np.array(modes) > N):
+    if np.any(np.array(modes) >= N):
         raise ValueError("Provided mode is larger than the number of subsystems.")
 
-    if len(modes) == N:
+    if list(modes) == list(range(N)):
         # reduced state is full state
         return mu, cov
 
-- 
2.43.0


From 0b5a78807190dc6caefb1866f67044d69af7ade6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:42 +0000
Subject: [PATCH 04/49] fix: interferometer returns a flattened array when
 make_tensor is False

---
 thewalrus/_hermite_multidimensional.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/thewalrus/_hermite_multidimensional.py b/thewalrus/_hermite_multidimensional.py
index 2454140..36b67c6 100644
--- a/thewalrus/_hermite_multidimensional.py
+++ b/thewalrus/_hermite_multidimensional.py
@@ -141,7 +141,7 @@ def interferometer(R, cutoff, C=1, renorm=True, make_tensor=True, rtol=1e-05, at
     """
 
     input_validation(R, atol=atol, rtol=rtol)
-    n, num_indices = R.shape
+    _, num_indices = R.shape
 
     # we want to catch np.ndarray(int) of ndim=0 which cannot be cast to tuple
     if isinstance(cutoff, np.ndarray) and (cutoff.ndim == 0 or len(cutoff) == 1):
@@ -162,9 +162,8 @@ def interferometer(R, cutoff, C=1, renorm=True, make_tensor=True, rtol=1e-05, at
     else:
         values = np.array(_interferometer(Rt, array))
 
-    if make_tensor:
-        shape = cutoff * np.ones([n], dtype=int)
-        values = np.reshape(values, shape)
+    if not make_tensor:
+        values = values.flatten()
 
     return values
 
-- 
2.43.0


From b97ada293f6b8a6c13b859c957004cbf2ddde613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:59 +0000
Subject: [PATCH 05/49] fix: renormalized Hermite polynomials of integer
 parameters are not truncated to integers

---
 thewalrus/_hermite_multidimensional.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/thewalrus/_hermite_multidimensional.py b/thewalrus/_hermite_multidimensional.py
index 36b67c6..6a78eef 100644
--- a/thewalrus/_hermite_multidimensional.py
+++ b/thewalrus/_hermite_multidimensional.py
@@ -97,6 +97,9 @@ def hermite_multidimensional(
     yt = np.real_if_close(y)
 
     dtype = np.result_type(Rt, yt, C)
+    if renorm and not np.issubdtype(dtype, np.inexact):
+        # the renormalized polynomials of integer parameters are not integers
+        dtype = np.float64
     array = np.zeros(cutoffs, dtype=dtype)
     array[(0,) * num_indices] = C
 
-- 
2.43.0


From f075c05453a864a232ed23fa7de5db0be29ed16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:17 +0000
Subject: [PATCH 06/49] fix: renormalized Hermite polynomials beyond cutoff
 1000 read past a fixed table of square roots

---
 thewalrus/_hermite_multidimensional.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/thewalrus/_hermite_multidimensional.py b/thewalrus/_hermite_multidimensional.py
index 6a78eef..b881588 100644
--- a/thewalrus/_hermite_multidimensional.py
+++ b/thewalrus/_hermite_multidimensional.py
@@ -246,9 +246,6 @@ def remove(
             yield p, dec(pattern, p)
 
 
-SQRT = np.sqrt(np.arange(1000))  # saving the time to recompute square roots
-
-
 @jit(nopython=True)
 def _hermite_multidimensional_renorm(R, y, G):  # pragma: no cover
     r"""Numba-compiled function to fill an array with the Hermite polynomials. It expects an array
@@ -272,8 +269,8 @@ def _hermite_multidimensional_renorm(R, y, G):  # pragma: no cover
         ki = dec(idx, i)
         u = y[i] * G[ki]
         for l, kl in remove(ki):
-            u -= SQRT[ki[l]] * R[i, l] * G[kl]
-        G[idx] = u / SQRT[idx[i]]
+            u -= np.sqrt(ki[l]) * R[i, l] * G[kl]
+        G[idx] = u / np.sqrt(idx[i])
     return G
 
 
@@ -339,8 +336,8 @@ def _interferometer_renorm(R, G):  # pragma: no cover
             ki = dec(idx, i)
             u = 0
             for l, kl in remove(ki):
-                u -= SQRT[ki[l]] * R[i, l] * G[kl]
-            G[idx] = u / SQRT[idx[i]]
+                u -= np.sqrt(ki[l]) * R[i, l] * G[kl]
+            G[idx] = u / np.sqrt(idx[i])
 
     return G
 
@@ -447,11 +444,11 @@ def _grad_hermite_multidimensional_renorm(R, y, G, dG_dR, dG_dy):  # pragma: no
         dy[i] += G[ki]
         dR = y[i] * dG_dR[ki]
         for l, kl in remove(ki):
-            dy -= SQRT[ki[l]] * dG_dy[kl] * R[i, l]
-            dR -= SQRT[ki[l]] * R[i, l] * dG_dR[kl]
-            dR[i, l] -= SQRT[ki[l]] * G[kl]
-        dG_dR[idx] = dR / SQRT[idx[i]]
-        dG_dy[idx] = dy / SQRT[idx[i]]
+            dy -= np.sqrt(ki[l]) * dG_dy[kl] * R[i, l]
+            dR -= np.sqrt(ki[l]) * R[i, l] * dG_dR[kl]
+            dR[i, l] -= np.sqrt(ki[l]) * G[kl]
+        dG_dR[idx] = dR / np.sqrt(idx[i])
+        dG_dy[idx] = dy / np.sqrt(idx[i])
     return dG_dR, dG_dy
 
 
-- 
2.43.0


From 294f051bb98b6e94a30aafb552fea263e0302e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:17 +0000
Subject: [PATCH 07/49] fix: Fock-state detection probabilities accept the
 vacuum

---
 thewalrus/_permanent.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/thewalrus/_permanent.py b/thewalrus/_permanent.py
index 863e520..69cacad 100644
--- a/thewalrus/_permanent.py
+++ b/thewalrus/_permanent.py
@@ -241,7 +241,7 @@ def ubrs(A):  # pragma: no cover
     steps = 2**m
     ones = np.ones(m, dtype=np.int8)
     total = 0
-    for j in prange(1, steps):
+    for j in prange(steps):
         kept_rows = np.where(find_kept_edges(j, ones) != 0)[0]
         Az = A[kept_rows, :]
         plusminus = (-1) ** ((m - len(kept_rows)) % 2)
@@ -266,8 +266,8 @@ def fock_prob(n, m, U):
     if sum(n) != sum(m):
         raise ValueError("number of input photons must equal number of output photons")
 
-    in_modes = np.array(list(chain(*[[i] * j for i, j in enumerate(n) if j > 0])))
-    out_modes = np.array(list(chain(*[[i] * j for i, j in enumerate(m) if j > 0])))
+    in_modes = np.array(list(chain(*[[i] * j for i, j in enumerate(n) if j > 0])), dtype=int)
+    out_modes = np.array(list(chain(*[[i] * j for i, j in enumerate(m) if j > 0])), dtype=int)
 
     Umn = U[np.ix_(out_modes, in_modes)]
 
@@ -305,7 +305,7 @@ def fock_threshold_prob(n, d, T):
 
     fac_prod = np.prod(factorial(n), dtype=np.float64)
 
-    in_modes = np.array(list(chain(*[[i] * j for i, j in enumerate(n) if j > 0])))
+    in_modes = np.array(list(chain(*[[i] * j for i, j in enumerate(n) if j > 0])), dtype=int)
     C = np.where(d > 0)[0]
 
     A = T[np.ix_(C, in_modes)]
-- 
2.43.0


From 1e4cccef24939af40ce8ed03bd34e258ba2aa825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:17 +0000
Subject: [PATCH 08/49] fix: permanent_repeated accepts the repetitions as an
 array

---
 thewalrus/_permanent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/_permanent.py b/thewalrus/_permanent.py
index 69cacad..41f5330 100644
--- a/thewalrus/_permanent.py
+++ b/thewalrus/_permanent.py
@@ -192,7 +192,7 @@ def permanent_repeated(A, rpt):
     O = np.zeros([n, n])
     B = np.vstack([np.hstack([O, A]), np.hstack([A.T, O])])
 
-    return hafnian_repeated(B, rpt * 2, loop=False)
+    return hafnian_repeated(B, list(rpt) * 2, loop=False)
 
 
 @jit(nopython=True, parallel=True)
-- 
2.43.0


From 615b0dbe5c0335e56d9c13b7d0daa5bcee55d60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:17 +0000
Subject: [PATCH 09/49] fix: characteristic polynomial of matrices smaller than
 2x2 writes outside its buffer

---
 thewalrus/charpoly.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/thewalrus/charpoly.py b/thewalrus/charpoly.py
index dd32cd9..5db1951 100644
--- a/thewalrus/charpoly.py
+++ b/thewalrus/charpoly.py
@@ -212,9 +212,11 @@ def _charpoly(H, k):  # pragma: no cover
     """
     n = len(H)
     c = np.zeros_like(H)
-    c[mlo(1, 1)] = -alpha(H, 1)
-    c[mlo(2, 1)] = c[mlo(1, 1)] - alpha(H, 2)
-    c[mlo(2, 2)] = alpha(H, 1) * alpha(H, 2) - hij(H, 1, 2) * beta(H, 2)
+    if n > 0:
+        c[mlo(1, 1)] = -alpha(H, 1)
+    if n > 1:
+        c[mlo(2, 1)] = c[mlo(1, 1)] - alpha(H, 2)
+        c[mlo(2, 2)] = alpha(H, 1) * alpha(H, 2) - hij(H, 1, 2) * beta(H, 2)
 
     for i in range(3, k + 1):
         c[mlo(i, 1)] = c[mlo(i - 1, 1)] - alpha(H, i)
-- 
2.43.0


From 15b9ae23099cf9c8666274f818de171183373e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 10/49] fix: pure_state_distribution checks purity with the
 given hbar

---
 thewalrus/quantum/photon_number_distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/quantum/photon_number_distributions.py b/thewalrus/quantum/photon_number_distributions.py
index a6f3527..e3ad3da 100644
--- a/thewalrus/quantum/photon_number_distributions.py
+++ b/thewalrus/quantum/photon_number_distributions.py
@@ -37,7 +37,7 @@ def pure_state_distribution(cov, cutoff=50, hbar=2, padding_factor=2):
     Returns:
         (array): Total photon number distribution
     """
-    if is_pure_cov(cov):
+    if is_pure_cov(cov, hbar=hbar):
         A = Amat(cov, hbar=hbar)
         (n, _) = A.shape
         N = n // 2
-- 
2.43.0


From c62465060a04a69921f22905f343ae961e8a3134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 11/49] fix: update_probabilities_with_loss is correct for ten
 or more modes

---
 thewalrus/quantum/fock_tensors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/quantum/fock_tensors.py b/thewalrus/quantum/fock_tensors.py
index d4ebcf8..0085be3 100644
--- a/thewalrus/quantum/fock_tensors.py
+++ b/thewalrus/quantum/fock_tensors.py
@@ -480,7 +480,7 @@ def update_probabilities_with_loss(etas, probs):
     alphabet = "abcdefghijklmnopqrstuvwxyz"
     cutoff = probs_shape[0]
     for i, eta in enumerate(etas):
-        einstrings = "ij,{}i...->{}j...".format(alphabet[:i], alphabet[:i])
+        einstrings = "YZ,{}Y...->{}Z...".format(alphabet[:i], alphabet[:i])
 
         qein = np.zeros_like(probs)
         qein = np.einsum(einstrings, loss_mat(eta, cutoff), probs)
-- 
2.43.0


From ae2b3eda0169208b830faefea51ff32fe53edc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 12/49] fix: loss_mat rows are normalized for transmissions
 close to one

---
 thewalrus/quantum/fock_tensors.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/thewalrus/quantum/fock_tensors.py b/thewalrus/quantum/fock_tensors.py
index 0085be3..4fb7302 100644
--- a/thewalrus/quantum/fock_tensors.py
+++ b/thewalrus/quantum/fock_tensors.py
@@ -453,9 +453,10 @@ def loss_mat(eta, cutoff):  # pragma: no cover
     lm = np.zeros((cutoff, cutoff))
     mu = 1.0 - eta
     lm[:, 0] = mu ** (np.arange(cutoff))
-    for i in range(cutoff):
+    for i in range(1, cutoff):
         for j in range(1, i + 1):
-            lm[i, j] = lm[i, j - 1] * (eta / mu) * (i - j + 1) / (j)
+            # Pascal's rule, unlike the ratio of consecutive elements, does not underflow
+            lm[i, j] = mu * lm[i - 1, j] + eta * lm[i - 1, j - 1]
     return lm
 
 
-- 
2.43.0


From df17b6a7e927449663f876c19efe75537bb4a35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 13/49] fix: fidelity checks the length of the second vector of
 means

---
 thewalrus/quantum/gaussian_checks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/quantum/gaussian_checks.py b/thewalrus/quantum/gaussian_checks.py
index 5f7b75a..02d1909 100644
--- a/thewalrus/quantum/gaussian_checks.py
+++ b/thewalrus/quantum/gaussian_checks.py
@@ -127,7 +127,7 @@ def fidelity(mu1, cov1, mu2, cov2, hbar=2, rtol=1e-05, atol=1e-08):
     n0, n1 = cov1.shape
     m0, m1 = cov2.shape
     (l0,) = mu1.shape
-    (l1,) = mu1.shape
+    (l1,) = mu2.shape
     if not n0 == n1 == m0 == m1 == l0 == l1:
         raise ValueError("The inputs have incompatible shapes")
 
-- 
2.43.0


From 6e81894945744b3a1492402524289c1309ba97c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 14/49] fix: bipartitions can be given as an array of modes

---
 thewalrus/quantum/entanglement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/quantum/entanglement.py b/thewalrus/quantum/entanglement.py
index ba5e0b3..a07027d 100644
--- a/thewalrus/quantum/entanglement.py
+++ b/thewalrus/quantum/entanglement.py
@@ -40,7 +40,7 @@ def get_partition(modes_A, split, M):
         if isinstance(modes_A, int):
             modes_A = [modes_A]
         for mode in modes_A:
-            if not isinstance(mode, int) or mode < 0 or mode > M - 1:
+            if not isinstance(mode, (int, np.integer)) or mode < 0 or mode > M - 1:
                 raise ValueError(
                     f"Every element of 'modes_A' must be an integer between 0 and {M - 1}"
                 )
-- 
2.43.0


From 37ef82166eae0a29cfbe69cbaec08fbca30f5657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:59 +0000
Subject: [PATCH 15/49] fix: expand_vector does not truncate integer
 displacements

---
 thewalrus/symplectic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thewalrus/symplectic.py b/thewalrus/symplectic.py
index 93d1414..94070d5 100644
--- a/thewalrus/symplectic.py
+++ b/thewalrus/symplectic.py
@@ -126,7 +126,8 @@ def expand_vector(alpha, mode, N, hbar=2.0):
     Returns:
         array: phase-space displacement vector of size 2*N
     """
-    alpharealdtype = np.dtype(type(alpha))
+    # at least single precision: an integer displacement does not have integer quadratures
+    alpharealdtype = np.result_type(type(alpha), np.float32)
 
     r = np.zeros(2 * N, dtype=alpharealdtype)
     r[mode] = np.sqrt(2 * hbar) * alpha.real
-- 
2.43.0


From 73db29f70a07d115ce1d3b622e70a0dbc56a873e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:59 +0000
Subject: [PATCH 16/49] fix: the loss channel accepts states given as integer
 arrays

---
 thewalrus/symplectic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/thewalrus/symplectic.py b/thewalrus/symplectic.py
index 94070d5..9cdce0a 100644
--- a/thewalrus/symplectic.py
+++ b/thewalrus/symplectic.py
@@ -338,8 +338,9 @@ def loss(mu, cov, T, mode, nbar=0, hbar=2):
     """
     N = len(cov) // 2
 
-    cov_res = cov.copy()
-    mu_res = mu.copy()
+    # at least single precision: in-place products with floats fail on integer arrays
+    cov_res = cov.astype(np.result_type(cov, np.float32))
+    mu_res = mu.astype(np.result_type(mu, np.float32))
 
     for m in (mode, mode + N):
         mu_res[m] *= np.sqrt(T)
-- 
2.43.0


From f725126e790aa4bf2f6c1d877f046d74da39266e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:13 +0000
Subject: [PATCH 17/49] fix: gradient of the squeezing gate at cutoff 1 reads
 outside the gate array

---
 thewalrus/fock_gradients.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/thewalrus/fock_gradients.py b/thewalrus/fock_gradients.py
index b4a3857..0160e67 100644
--- a/thewalrus/fock_gradients.py
+++ b/thewalrus/fock_gradients.py
@@ -171,12 +171,12 @@ def grad_squeezing(T, r, phi):  # pragma: no cover
             grad_r[m, n] = (
                 -0.5 * tanhr * T[m, n]
                 - sechr * tanhr * sqrt[m] * sqrt[n] * T[m - 1, n - 1]
-                - 0.5 * eiphi * sechr**2 * sqrt[m] * sqrt[m - 1] * T[m - 2, n]
-                + 0.5 * eiphiconj * sechr**2 * sqrt[n] * sqrt[n - 1] * T[m, n - 2]
+                - 0.5 * eiphi * sechr**2 * sqrt[m] * sqrt[m - 1] * T[max(m - 2, 0), n]
+                + 0.5 * eiphiconj * sechr**2 * sqrt[n] * sqrt[n - 1] * T[m, max(n - 2, 0)]
             )
             grad_phi[m, n] = (
-                -0.5j * eiphi * tanhr * sqrt[m] * sqrt[m - 1] * T[m - 2, n]
-                - 0.5j * eiphiconj * tanhr * sqrt[n] * sqrt[n - 1] * T[m, n - 2]
+                -0.5j * eiphi * tanhr * sqrt[m] * sqrt[m - 1] * T[max(m - 2, 0), n]
+                - 0.5j * eiphiconj * tanhr * sqrt[n] * sqrt[n - 1] * T[m, max(n - 2, 0)]
             )
 
     return grad_r, grad_phi
-- 
2.43.0


From 3c6b606cf559da0a57f217e8855bf29469d984dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 18/49] fix: n_body_marginals is correct for nine or more modes

---
 thewalrus/quantum/fock_tensors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/quantum/fock_tensors.py b/thewalrus/quantum/fock_tensors.py
index 4fb7302..524a06d 100644
--- a/thewalrus/quantum/fock_tensors.py
+++ b/thewalrus/quantum/fock_tensors.py
@@ -662,7 +662,7 @@ def n_body_marginals(mean, cov, cutoff, n, hbar=2):
     marginal = [np.zeros(([M] * i) + ([cutoff] * i)) for i in range(1, n + 1)]
 
     for ind in product(range(M), repeat=n):
-        modes = list(set(ind))
+        modes = sorted(set(ind))
         acc = len(modes) - 1
         if list(ind) == sorted(ind):
             sub_mean, sub_cov = reduced_state(mean, cov, modes)  # this happens in phase space
-- 
2.43.0


From a817f18e90cbfca4ddf71b4a69ef577fa0c45265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 19/49] fix: hafnian_sparse of the empty submatrix is one also
 when the matrix is zero

---
 thewalrus/_hafnian.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/thewalrus/_hafnian.py b/thewalrus/_hafnian.py
index ec97e1b..6f2875f 100644
--- a/thewalrus/_hafnian.py
+++ b/thewalrus/_hafnian.py
@@ -837,6 +837,10 @@ def hafnian_sparse(A, D=None, loop=False):
     else:
         D = frozenset(D)
 
+    if not D:
+        # the empty matching
+        return 1.0
+
     if not loop:
         A = A - np.diag(np.diag(A))
 
-- 
2.43.0


From 458d4a0f5ca137bb73e33ccc84e619db209b1e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:48 +0000
Subject: [PATCH 20/49] fix: renormalized interferometer amplitudes of integer
 matrices are not truncated to integers

---
 thewalrus/_hermite_multidimensional.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/thewalrus/_hermite_multidimensional.py b/thewalrus/_hermite_multidimensional.py
index b881588..89542de 100644
--- a/thewalrus/_hermite_multidimensional.py
+++ b/thewalrus/_hermite_multidimensional.py
@@ -157,6 +157,9 @@ def interferometer(R, cutoff, C=1, renorm=True, make_tensor=True, rtol=1e-05, at
     Rt = np.real_if_close(R)
 
     dtype = np.result_type(Rt, C)
+    if renorm and not np.issubdtype(dtype, np.inexact):
+        # the renormalized polynomials of integer parameters are not integers
+        dtype = np.float64
     array = np.zeros(cutoffs, dtype=dtype)
     array[(0,) * num_indices] = C
 
-- 
2.43.0


From 9a384687b47ce1415b9fd95c36cc6465ba59f8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:40 +0000
Subject: [PATCH 21/49] fix: powertrace returns exactly the requested number of
 traces

---
 thewalrus/charpoly.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/thewalrus/charpoly.py b/thewalrus/charpoly.py
index 5db1951..c9c0c48 100644
--- a/thewalrus/charpoly.py
+++ b/thewalrus/charpoly.py
@@ -318,10 +318,10 @@ def powertrace(H, n):  # pragma: no cover
     for _ in range(min_val - 2):
         A = A @ H
         pow_traces.append(np.trace(A))
-    if n <= m:
-        return np.array(pow_traces, dtype=H.dtype)
+    if n <= len(pow_traces):
+        return np.array(pow_traces[:n], dtype=H.dtype)
     char_pol = charpoly(H)
-    for _ in range(min_val, n):
+    for _ in range(len(pow_traces), n):
         ssum = 0
         for k in range(m):
             ssum -= char_pol[k] * pow_traces[-k - 1]
-- 
2.43.0


From fe369d73a7e9aec005569b5173c02fb6be5d820f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:45 +0000
Subject: [PATCH 22/49] fix: noise acting on an integer probability tensor is
 not truncated to integers

---
 thewalrus/quantum/fock_tensors.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/thewalrus/quantum/fock_tensors.py b/thewalrus/quantum/fock_tensors.py
index 524a06d..e4671bd 100644
--- a/thewalrus/quantum/fock_tensors.py
+++ b/thewalrus/quantum/fock_tensors.py
@@ -533,6 +533,7 @@ def update_probabilities_with_noise(probs_noise, probs):
         perm[k] = 0
         one_d = probs_noise[k]
         probs_masked = np.transpose(probs, axes=perm)
+        probs_masked = probs_masked.astype(np.result_type(probs, np.asarray(one_d)))
         probs_masked = _update_1d(probs_masked, one_d, cutoff)
         probs = np.transpose(probs_masked, axes=perm)
     return probs
-- 
2.43.0


From 67b28deb2cc529c8d323d69eb02aded0dfceec15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:45 +0000
Subject: [PATCH 23/49] fix: zeroth powers in photon_number_moment contribute a
 factor of one

---
 thewalrus/quantum/means_and_variances.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/thewalrus/quantum/means_and_variances.py b/thewalrus/quantum/means_and_variances.py
index 8fc82f1..70e81ae 100644
--- a/thewalrus/quantum/means_and_variances.py
+++ b/thewalrus/quantum/means_and_variances.py
@@ -347,6 +347,7 @@ def photon_number_moment(mu, cov, indices, hbar=2):
 
     """
     N = len(cov) // 2
+    indices = {key: power for key, power in indices.items() if power != 0}  # n^0 = 1
     list_indices = [indices[key] for key in indices]
     modes = list(indices)
     # Find the expansion coefficients of all the different powers
-- 
2.43.0


From 34258fbc9141801cc51066868186f76841aa2fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:05 +0000
Subject: [PATCH 24/49] fix: fidelity returns a real number when rounding makes
 the matrix square root complex

---
 thewalrus/quantum/gaussian_checks.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/thewalrus/quantum/gaussian_checks.py b/thewalrus/quantum/gaussian_checks.py
index 02d1909..e6114d9 100644
--- a/thewalrus/quantum/gaussian_checks.py
+++ b/thewalrus/quantum/gaussian_checks.py
@@ -155,8 +155,9 @@ def fidelity(mu1, cov1, mu2, cov2, hbar=2, rtol=1e-05, atol=1e-08):
     )
     # Note that we only take the square root and that we have a prefactor of 0.5
     # as opposed to 0.25 in Brask. This is because this function returns the square
-    # of their fidelities.
-    return f
+    # of their fidelities. The matrix square root of a singular matrix can pick up a spurious
+    # imaginary part from rounding, the fidelity itself is real.
+    return np.real(f)
 
 
 def is_symplectic(S, rtol=1e-05, atol=1e-08):
-- 
2.43.0


From 1964affb82b98adba0d74ba58d18af2c17136960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:05 +0000
Subject: [PATCH 25/49] fix: reducing a state to negative modes is rejected
 instead of swapping quadratures

---
 thewalrus/quantum/conversions.py | 3 +++
 thewalrus/symplectic.py          | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/thewalrus/quantum/conversions.py b/thewalrus/quantum/conversions.py
index 523fcfa..a4a9742 100644
--- a/thewalrus/quantum/conversions.py
+++ b/thewalrus/quantum/conversions.py
@@ -41,6 +41,9 @@ def reduced_gaussian(mu, cov, modes):
     if np.any(np.array(modes) >= N):
         raise ValueError("Provided mode is larger than the number of subsystems.")
 
+    if np.any(np.array(modes) < 0):
+        raise ValueError("Provided mode is negative.")
+
     if list(modes) == list(range(N)):
         # reduced state is full state
         return mu, cov
diff --git a/thewalrus/symplectic.py b/thewalrus/symplectic.py
index 9cdce0a..6022966 100644
--- a/thewalrus/symplectic.py
+++ b/thewalrus/symplectic.py
@@ -183,9 +183,12 @@ def reduced_state(mu, cov, modes):
     if isinstance(modes, int):
         modes = [modes]
 
-    if np.any(np.array(modes) > N):
+    if np.any(np.array(modes) >= N):
         raise ValueError("The specified modes cannot be larger than number of subsystems.")
 
+    if np.any(np.array(modes) < 0):
+        raise ValueError("The specified modes cannot be negative.")
+
     ind = np.concatenate([np.array(modes), np.array(modes) + N])
     rows = ind.reshape(-1, 1)
     cols = ind.reshape(1, -1)
-- 
2.43.0


From 5312ade6dea660aa3a5b8f3f07e8981348f8e242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:01 +0000
Subject: [PATCH 26/49] fix: symplectic_eigenvals does not return complex
 numbers because of rounding

---
 thewalrus/decompositions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thewalrus/decompositions.py b/thewalrus/decompositions.py
index 8ad1f0c..dbcf51f 100644
--- a/thewalrus/decompositions.py
+++ b/thewalrus/decompositions.py
@@ -113,7 +113,8 @@ def symplectic_eigenvals(cov):
     """
     M = len(cov) // 2
     Omega = sympmat(M)
-    return np.real_if_close(-1j * np.linalg.eigvals(Omega @ cov))[::2]
+    # The eigenvalues are purely imaginary and come in consecutive complex conjugate pairs
+    return np.abs(np.linalg.eigvals(Omega @ cov))[::2]
 
 
 def blochmessiah(S):
-- 
2.43.0


From 4f3f9cd494c2f7955150c367ecc7e68ef37ef167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:40 +0000
Subject: [PATCH 27/49] fix: takagi of complex matrices with degenerate
 singular values on the square-root branch cut

---
 thewalrus/decompositions.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/thewalrus/decompositions.py b/thewalrus/decompositions.py
index dbcf51f..6006ad8 100644
--- a/thewalrus/decompositions.py
+++ b/thewalrus/decompositions.py
@@ -216,7 +216,13 @@ def takagi(A, svd_order=True, rtol=1e-16):
         return l[perm], U[:, perm]
 
     u, d, v = np.linalg.svd(A)
-    U = u @ sqrtm((v @ np.conjugate(u)).T)
+    Z = (v @ np.conjugate(u)).T
+    # A degenerate eigenvalue of the unitary Z lying on the branch cut of the square root can be
+    # split between both branches, so move the cut to the middle of the largest gap in the spectrum
+    angles = np.sort(np.angle(np.linalg.eigvals(Z)))
+    gaps = np.diff(angles, append=angles[0] + 2 * np.pi)
+    phase = angles[np.argmax(gaps)] + 0.5 * np.max(gaps) - np.pi
+    U = u @ sqrtm(np.exp(-1j * phase) * Z) * np.exp(0.5j * phase)
     if svd_order is False:
         return d[::-1], U[:, ::-1]
     return d, U
-- 
2.43.0


From 74dc4940b03518900fcbd6dd95e43ac9805d89e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:58 +0000
Subject: [PATCH 28/49] fix: fidelity of partly pure states is not nan when the
 matrix square root does not exist numerically

---
 thewalrus/quantum/gaussian_checks.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/thewalrus/quantum/gaussian_checks.py b/thewalrus/quantum/gaussian_checks.py
index e6114d9..e06898b 100644
--- a/thewalrus/quantum/gaussian_checks.py
+++ b/thewalrus/quantum/gaussian_checks.py
@@ -18,7 +18,6 @@ calculations for Gaussian states.
 # pylint: disable=too-many-arguments
 
 import numpy as np
-from scipy.linalg import sqrtm
 
 from ..symplectic import sympmat
 
@@ -143,21 +142,20 @@ def fidelity(mu1, cov1, mu2, cov2, hbar=2, rtol=1e-05, atol=1e-08):
     vaux = omega.T @ sigma_inv @ (0.25 * omega + sigma2 @ omega @ sigma1)
     sqrtm_arg = np.identity(n0) + 0.25 * np.linalg.inv(vaux @ omega @ vaux @ omega)
 
-    # The sqrtm function has issues with matrices that are close to zero, hence we branch
+    # Only the determinant of 2 * (sqrtm(sqrtm_arg) + 1) @ vaux is needed, which follows from the
+    # (non-negative) eigenvalues of sqrtm_arg. Taking the matrix square root itself fails when
+    # sqrtm_arg is singular, which happens whenever one of the states is partly pure.
     if np.allclose(sqrtm_arg, 0, rtol=rtol, atol=atol):
-        mat_sqrtm = np.zeros_like(sqrtm_arg)
+        eigs = np.zeros(n0)
     else:
-        mat_sqrtm = sqrtm(sqrtm_arg)
+        eigs = np.maximum(np.linalg.eigvals(sqrtm_arg).real, 0)
 
-    det_arg = 2 * (mat_sqrtm + np.identity(n0)) @ vaux
-    f = np.sqrt(np.linalg.det(sigma_inv) * np.linalg.det(det_arg)) * np.exp(
-        -0.5 * deltar @ sigma_inv @ deltar
-    )
+    det_val = np.linalg.det(2 * vaux) * np.prod(np.sqrt(eigs) + 1)
+    f = np.sqrt(np.linalg.det(sigma_inv) * det_val) * np.exp(-0.5 * deltar @ sigma_inv @ deltar)
     # Note that we only take the square root and that we have a prefactor of 0.5
     # as opposed to 0.25 in Brask. This is because this function returns the square
-    # of their fidelities. The matrix square root of a singular matrix can pick up a spurious
-    # imaginary part from rounding, the fidelity itself is real.
-    return np.real(f)
+    # of their fidelities.
+    return f
 
 
 def is_symplectic(S, rtol=1e-05, atol=1e-08):
-- 
2.43.0


From e0285df6939de8434f7753b612c7159791236df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:47 +0000
Subject: [PATCH 29/49] fix: pre_iwasawa and iwasawa do not return complex
 factors for degenerate spectra

---
 thewalrus/decompositions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thewalrus/decompositions.py b/thewalrus/decompositions.py
index 6006ad8..a1e479c 100644
--- a/thewalrus/decompositions.py
+++ b/thewalrus/decompositions.py
@@ -255,7 +255,8 @@ def pre_iwasawa(S):
     B = S[:N, N:]
     C = S[N:, :N]
     D = S[N:, N:]
-    A0 = sqrtm(A @ A.T + B @ B.T)
+    # sqrtm can return a complex array (with rounding errors as imaginary part) for degenerate spectra
+    A0 = sqrtm(A @ A.T + B @ B.T).real
     A0inv = np.linalg.inv(A0)
     X = A0inv @ A
     Y = A0inv @ B
-- 
2.43.0


From 5cc748ae00a001882f7081268cef1f99cf7032c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:30 +0000
Subject: [PATCH 30/49] fix: symplectic_eigenvals converges for covariances
 proportional to the identity up to rounding

---
 thewalrus/decompositions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/thewalrus/decompositions.py b/thewalrus/decompositions.py
index a1e479c..8a4542b 100644
--- a/thewalrus/decompositions.py
+++ b/thewalrus/decompositions.py
@@ -113,8 +113,9 @@ def symplectic_eigenvals(cov):
     """
     M = len(cov) // 2
     Omega = sympmat(M)
-    # The eigenvalues are purely imaginary and come in consecutive complex conjugate pairs
-    return np.abs(np.linalg.eigvals(Omega @ cov))[::2]
+    # The eigenvalues come in pairs of opposite sign. The factor of 1j avoids the real LAPACK routine,
+    # which can fail to converge when cov is proportional to the identity up to rounding errors.
+    return np.sort(np.abs(np.linalg.eigvals(1j * Omega @ cov)))[::2]
 
 
 def blochmessiah(S):
-- 
2.43.0


From f10d8f3713dd033fc300feb06b0e38b9fe2da43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:07 +0000
Subject: [PATCH 31/49] fix: williamson does not fail when the real Schur
 decomposition does not converge

---
 thewalrus/decompositions.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/thewalrus/decompositions.py b/thewalrus/decompositions.py
index 8a4542b..9cccae7 100644
--- a/thewalrus/decompositions.py
+++ b/thewalrus/decompositions.py
@@ -82,7 +82,14 @@ def williamson(V, rtol=1e-05, atol=1e-08):
     M12 = np.real_if_close(sqrtm(V))
     Mm12 = np.linalg.inv(M12)
     Gamma = Mm12 @ omega @ Mm12
-    a, O = schur(Gamma)
+    try:
+        a, O = schur(Gamma)
+    except np.linalg.LinAlgError:
+        # The real Schur decomposition occasionally fails to converge for degenerate spectra, but the
+        # same form follows from the (positive) eigenvalues of the Hermitian matrix 1j * Gamma.
+        vecs = np.sqrt(2) * np.linalg.eigh(1j * Gamma)[1][:, n:]
+        O = np.stack([vecs.real, -vecs.imag], axis=2).reshape(2 * n, 2 * n)
+        a = O.T @ Gamma @ O
     # In what follows a permutation matrix perm is constructed so that the Schur matrix has
     # only positive elements above the diagonal
     # Also the Schur matrix uses the x_1,p_1, ..., x_n,p_n  ordering thus the permutation perm is updated
-- 
2.43.0


From 48e73bba03cc35ca3fedcd23085c4311b0b7c532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:39 +0000
Subject: [PATCH 32/49] fix: expand accepts coo_matrix, dia_matrix and
 bsr_matrix

---
 thewalrus/symplectic.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/thewalrus/symplectic.py b/thewalrus/symplectic.py
index 6022966..7eac389 100644
--- a/thewalrus/symplectic.py
+++ b/thewalrus/symplectic.py
@@ -58,14 +58,7 @@ Code details
 """
 import warnings
 import numpy as np
-from scipy.sparse import (
-    identity as sparse_identity,
-    issparse,
-    coo_array,
-    dia_array,
-    bsr_array,
-    csr_array,
-)
+from scipy.sparse import identity as sparse_identity, issparse, csr_array
 
 
 def expand(S, modes, N):
@@ -74,7 +67,8 @@ def expand(S, modes, N):
     on multiple modes.
 
     Supports scipy sparse matrices. Instances of ``coo_array``, ``dia_array``,
-    ``bsr_array`` will be transformed into `csr_array``.
+    ``bsr_array`` (and ``coo_matrix``, ``dia_matrix``, ``bsr_matrix``) will be
+    transformed into `csr_array``.
 
     Args:
         S (ndarray or spmatrix): a :math:`2M\times 2M` Symplectic matrix
@@ -91,7 +85,7 @@ def expand(S, modes, N):
         else sparse_identity(2 * N, dtype=S.dtype, format="csr")
     )
 
-    if issparse(S) and isinstance(S, (coo_array, dia_array, bsr_array)):
+    if issparse(S) and S.format in ("coo", "dia", "bsr"):
         # cast to sparse matrix that supports slicing and indexing
         warnings.warn(
             "Unsupported sparse matrix type, returning a Compressed Sparse Row (CSR) matrix."
-- 
2.43.0


From 12e5d1749908ca93f7d84b4dee40366acf09653f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:27 +0000
Subject: [PATCH 33/49] fix: sampling of strongly squeezed pure states does not
 fail because of rounding

---
 thewalrus/samples.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/thewalrus/samples.py b/thewalrus/samples.py
index 902344f..581c38f 100644
--- a/thewalrus/samples.py
+++ b/thewalrus/samples.py
@@ -112,7 +112,9 @@ def decompose_cov(cov, hbar=2):
     D, S = williamson(cov)
     T = hbar / 2 * S @ S.T
     DmI = D - hbar / 2 * np.eye(2 * m)
-    DmI[abs(DmI) < 1e-10] = 0.0  # remove slightly negative values
+    # remove slightly negative values; the rounding error of D grows quadratically with the squeezing
+    tol = max(1e-10, 1e-15 * np.max(np.abs(cov)) ** 2 * 2 / hbar)
+    DmI[abs(DmI) < tol] = 0.0
     sqrtW = S @ np.sqrt(DmI)
     return T, sqrtW
 
-- 
2.43.0


From 913cbfba9ef13ddae2eb38a29c09ab95b296967b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:27 +0000
Subject: [PATCH 34/49] fix: photon_number_sampler with out_of_bounds accepts
 distributions that sum to one up to rounding

---
 thewalrus/samples.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thewalrus/samples.py b/thewalrus/samples.py
index 581c38f..4fc6a9a 100644
--- a/thewalrus/samples.py
+++ b/thewalrus/samples.py
@@ -717,7 +717,8 @@ def photon_number_sampler(probabilities, num_samples, out_of_bounds=False):
         return np.unravel_index(index, [cutoff] * num_modes)
 
     vals = np.arange(1 + cutoff**num_modes, dtype=int)
-    probabilities = np.append(probabilities.flatten(), 1.0 - sum_p)
+    # the sum of a normalized distribution can exceed one because of rounding
+    probabilities = np.append(probabilities.flatten(), max(0.0, 1.0 - sum_p))
     return [sorter(np.random.choice(vals, p=probabilities)) for _ in range(num_samples)]
 
 
-- 
2.43.0


From 9f4629104b4b39043d994cc5083a7992938b2643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:22 +0000
Subject: [PATCH 35/49] fix: grouped click probabilities are normalized when
 num_samples is not a multiple of num_groups

---
 thewalrus/grouped_click_probabilities.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thewalrus/grouped_click_probabilities.py b/thewalrus/grouped_click_probabilities.py
index d8d4530..37e9166 100644
--- a/thewalrus/grouped_click_probabilities.py
+++ b/thewalrus/grouped_click_probabilities.py
@@ -37,7 +37,8 @@ def grouped_click_probabilities(
     bcc = np.zeros(num_modes + 1, dtype=np.float64)
     qcc = np.zeros(num_modes + 1, dtype=np.float64)
     fix = np.zeros(num_modes + 1, dtype=np.float64)
-    for j in range(num_samples):
+    # leftover samples do not make up a group
+    for j in range(samp_per_group * num_groups):
         wrp = np.array([np.random.normal() for _ in range(num_input)])
         wrm = np.array([np.random.normal() for _ in range(num_input)])
         alpha = t_matrix @ (drp * wrp + 1j * drm * wrm)
-- 
2.43.0


From 9bf57f9d8f55fbf14c96e442681be8ab543d4f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:22 +0000
Subject: [PATCH 36/49] fix: errors of grouped click probabilities are not nan

---
 thewalrus/grouped_click_probabilities.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/thewalrus/grouped_click_probabilities.py b/thewalrus/grouped_click_probabilities.py
index 37e9166..66efd48 100644
--- a/thewalrus/grouped_click_probabilities.py
+++ b/thewalrus/grouped_click_probabilities.py
@@ -53,7 +53,9 @@ def grouped_click_probabilities(
             bcc = bcc + (acc - fix) / samp_per_group
             qcc = qcc + ((acc - fix) / samp_per_group) ** 2
             fix = acc
-    return bcc / num_groups, (qcc / num_groups - (bcc / num_groups) ** 2) ** 0.5
+    # the variance can be slightly negative because of rounding
+    var = np.maximum(qcc / num_groups - (bcc / num_groups) ** 2, 0.0)
+    return bcc / num_groups, var**0.5
 
 
 @jit(nopython=True)
-- 
2.43.0


From 89e4ac4dc5bfd4a9997bc98d9e4bdc0c7a6cffb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:33 +0000
Subject: [PATCH 37/49] fix: hafnian_sample_graph_rank_one accepts integer
 arrays

---
 thewalrus/samples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/samples.py b/thewalrus/samples.py
index 4fc6a9a..6c34b79 100644
--- a/thewalrus/samples.py
+++ b/thewalrus/samples.py
@@ -750,7 +750,7 @@ def _hafnian_sample_graph_rank_one(G, n_mean):
     total_photon_num = 2 * np.random.negative_binomial(0.5, q, 1)[0]
     sample = np.zeros(len(G))
     single_ph_ps = np.abs(G) ** 2
-    single_ph_ps /= np.sum(single_ph_ps)
+    single_ph_ps = single_ph_ps / np.sum(single_ph_ps)  # not in place: G can be integer
     for _ in range(total_photon_num):
         detector = np.random.choice(len(G), p=single_ph_ps)
         sample[detector] += 1
-- 
2.43.0


From eeec87957d156b8157900e0f156b2b3ca5b2b36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:57 +0000
Subject: [PATCH 38/49] fix: grouped click probabilities accept real transfer
 matrices

---
 thewalrus/grouped_click_probabilities.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/thewalrus/grouped_click_probabilities.py b/thewalrus/grouped_click_probabilities.py
index 66efd48..9f777f9 100644
--- a/thewalrus/grouped_click_probabilities.py
+++ b/thewalrus/grouped_click_probabilities.py
@@ -24,6 +24,7 @@ def grouped_click_probabilities(
     np.random.seed(seed)
     samp_per_group = num_samples // num_groups
     num_modes, num_input = max(t_matrix.shape), min(t_matrix.shape)
+    t_complex = t_matrix.astype(np.complex128)  # real transfer matrices are allowed
     drp = np.array([(0.5 * np.complex128(phn[i] + chn[i])) ** 0.5 for i in range(num_input)])
     drm = np.array([(0.5 * np.complex128(phn[i] - chn[i])) ** 0.5 for i in range(num_input)])
     delta = 2 * np.pi / (num_modes + 1)
@@ -41,8 +42,8 @@ def grouped_click_probabilities(
     for j in range(samp_per_group * num_groups):
         wrp = np.array([np.random.normal() for _ in range(num_input)])
         wrm = np.array([np.random.normal() for _ in range(num_input)])
-        alpha = t_matrix @ (drp * wrp + 1j * drm * wrm)
-        beta = t_matrix.conj() @ (drp * wrp - 1j * drm * wrm)
+        alpha = t_complex @ (drp * wrp + 1j * drm * wrm)
+        beta = t_complex.conj() @ (drp * wrp - 1j * drm * wrm)
         gth = np.empty(num_modes + 1, dtype=np.complex128)
         for k in range(num_modes + 1):
             gth[k] = np.prod(
-- 
2.43.0


From c37e5ae9546094251f952abefb6c2a02bffa43bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:37 +0000
Subject: [PATCH 39/49] fix: matchings of equal labels of different types do
 not share a cache entry

---
 thewalrus/reference.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/thewalrus/reference.py b/thewalrus/reference.py
index 9bd2e04..5e5252c 100644
--- a/thewalrus/reference.py
+++ b/thewalrus/reference.py
@@ -112,14 +112,16 @@ def memoized(f, maxsize=MAXSIZE):
 
     @functools.wraps(f)
     def ret(*args):
-        if args not in cache:
-            cache[args] = f(*args)
-        if isinstance(cache[args], (GeneratorType, Tee)):
+        # labels of different types can be equal, e.g. 1 and 1.0
+        key = args + tuple(type(i) for s in args if isinstance(s, tuple) for i in s)
+        if key not in cache:
+            cache[key] = f(*args)
+        if isinstance(cache[key], (GeneratorType, Tee)):
             # the original can't be used any more,
             # so we need to change the cache as well
-            cache[args], r = tee(cache[args])
+            cache[key], r = tee(cache[key])
             return r
-        return cache[args]
+        return cache[key]
 
     return ret
 
-- 
2.43.0


From 152e39b709a8d1d296d7cb88d8977dc1334cd22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:49 +0000
Subject: [PATCH 40/49] fix: a negative split of the modes is rejected by
 log_negativity

---
 thewalrus/quantum/entanglement.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/thewalrus/quantum/entanglement.py b/thewalrus/quantum/entanglement.py
index a07027d..e6a3f44 100644
--- a/thewalrus/quantum/entanglement.py
+++ b/thewalrus/quantum/entanglement.py
@@ -46,8 +46,10 @@ def get_partition(modes_A, split, M):
                 )
 
     if modes_A is None and split is not None:
-        if not isinstance(split, int) or split > M - 1:
-            raise ValueError("'split' must be an integer smaller than the number of modes.")
+        if not isinstance(split, int) or split < 0 or split > M - 1:
+            raise ValueError(
+                "'split' must be a non-negative integer smaller than the number of modes."
+            )
         modes_A = range(split)
 
     if modes_A is None and split is None:
-- 
2.43.0


From 24ae88e7fa4aa66cbdcfeb6ff8ee5e570ef82164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:49 +0000
Subject: [PATCH 41/49] fix: hafnian_repeated rejects means of the wrong length
 for every matrix and every rpt

---
 thewalrus/_hafnian.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/thewalrus/_hafnian.py b/thewalrus/_hafnian.py
index 6f2875f..179d7fc 100644
--- a/thewalrus/_hafnian.py
+++ b/thewalrus/_hafnian.py
@@ -917,6 +917,9 @@ def hafnian_repeated(A, rpt, mu=None, loop=False, rtol=1e-05, atol=1e-08, glynn=
     if not np.all(np.mod(rpt, 1) == 0) or np.any(nud < 0):
         raise ValueError("the rpt argument must contain non-negative integers.")
 
+    if mu is not None and len(mu) != len(A):
+        raise ValueError("Length of means vector must be the same length as the matrix A.")
+
     if np.all(nud == 0):
         return 1.0
 
@@ -931,9 +934,6 @@ def hafnian_repeated(A, rpt, mu=None, loop=False, rtol=1e-05, atol=1e-08, glynn=
             return np.prod(mu**rpt)
         return 0
 
-    if len(mu) != len(A):
-        raise ValueError("Length of means vector must be the same length as the matrix A.")
-
     if loop:
         return loop_hafnian(A, D=mu, reps=rpt, glynn=glynn)
 
-- 
2.43.0


From 1e07a61b43c1ec2d01d2282b29bc52de4077d3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:49 +0000
Subject: [PATCH 42/49] fix: samplers reject covariance matrices of odd
 dimension

---
 thewalrus/samples.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/thewalrus/samples.py b/thewalrus/samples.py
index 6c34b79..afff842 100644
--- a/thewalrus/samples.py
+++ b/thewalrus/samples.py
@@ -309,6 +309,9 @@ def _hafnian_sample(args):
     if matshape[0] != matshape[1]:
         raise ValueError("Covariance matrix must be square.")
 
+    if matshape[0] % 2 != 0:
+        raise ValueError("Covariance matrix must have an even number of rows.")
+
     if np.isnan(cov).any():
         raise ValueError("Covariance matrix must not contain NaNs.")
 
@@ -528,6 +531,9 @@ def _torontonian_sample(args):
     if matshape[0] != matshape[1]:
         raise ValueError("Covariance matrix must be square.")
 
+    if matshape[0] % 2 != 0:
+        raise ValueError("Covariance matrix must have an even number of rows.")
+
     if np.isnan(cov).any():
         raise ValueError("Covariance matrix must not contain NaNs.")
 
-- 
2.43.0


From 5ca5f11816ed2acb0ba5c81369aae318a5c33f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:14 +0000
Subject: [PATCH 43/49] fix: hafnians, permanents and Hermite polynomials of
 boolean, unsigned and short integer matrices do not wrap around

---
 thewalrus/_hafnian.py                  | 17 +++++++++++++++++
 thewalrus/_hermite_multidimensional.py |  5 ++++-
 thewalrus/_permanent.py                |  4 +++-
 3 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/thewalrus/_hafnian.py b/thewalrus/_hafnian.py
index 179d7fc..3e9c34f 100644
--- a/thewalrus/_hafnian.py
+++ b/thewalrus/_hafnian.py
@@ -665,6 +665,19 @@ def input_validation(A, rtol=1e-05, atol=1e-08):
     return True
 
 
+def widen_integers(A):
+    """Converts matrices of booleans, unsigned or short integers to ``np.int64``: sums, products and
+    negatives of their entries are not representable in the original type and would wrap around.
+
+    Args:
+        A (array): a NumPy array.
+
+    Returns:
+        array: the array with its integer entries as ``np.int64``; other arrays are returned as they are
+    """
+    return A.astype(np.int64) if A.dtype.kind in "biu" else A
+
+
 def bandwidth(A):
     """Calculates the upper bandwidth of the matrix A.
 
@@ -748,6 +761,7 @@ def hafnian(
     """
     # pylint: disable=too-many-return-statements,too-many-branches
     input_validation(A, rtol=rtol, atol=atol)
+    A = widen_integers(A)
 
     matshape = A.shape
 
@@ -841,6 +855,8 @@ def hafnian_sparse(A, D=None, loop=False):
         # the empty matching
         return 1.0
 
+    A = widen_integers(np.asarray(A))
+
     if not loop:
         A = A - np.diag(np.diag(A))
 
@@ -952,6 +968,7 @@ def hafnian_banded(A, loop=False, rtol=1e-05, atol=1e-08):
         int or float or complex: the loop hafnian of matrix ``A``
     """
     input_validation(A, atol=atol, rtol=rtol)
+    A = widen_integers(A)
     (n, _) = A.shape
     w = bandwidth(A)
     if not loop:
diff --git a/thewalrus/_hermite_multidimensional.py b/thewalrus/_hermite_multidimensional.py
index 89542de..7a20b61 100644
--- a/thewalrus/_hermite_multidimensional.py
+++ b/thewalrus/_hermite_multidimensional.py
@@ -19,7 +19,7 @@ from numba import jit
 from numba.cpython.unsafe.tuple import tuple_setitem
 import numpy as np
 
-from ._hafnian import input_validation
+from ._hafnian import input_validation, widen_integers
 
 
 # pylint: disable=too-many-arguments
@@ -67,6 +67,7 @@ def hermite_multidimensional(
     """
 
     input_validation(R, atol=atol, rtol=rtol)
+    R = widen_integers(R)
     n, _ = R.shape
 
     if (modified is False) and (y is not None):
@@ -144,6 +145,7 @@ def interferometer(R, cutoff, C=1, renorm=True, make_tensor=True, rtol=1e-05, at
     """
 
     input_validation(R, atol=atol, rtol=rtol)
+    R = widen_integers(R)
     _, num_indices = R.shape
 
     # we want to catch np.ndarray(int) of ndim=0 which cannot be cast to tuple
@@ -210,6 +212,7 @@ def hafnian_batched(A, cutoff, mu=None, rtol=1e-05, atol=1e-08, renorm=False, ma
         (array): the values of the hafnians for each value of :math:`k` up to the cutoff
     """
     input_validation(A, atol=atol, rtol=rtol)
+    A = widen_integers(A)
     n, _ = A.shape
 
     if mu is None:
diff --git a/thewalrus/_permanent.py b/thewalrus/_permanent.py
index 41f5330..546ddb2 100644
--- a/thewalrus/_permanent.py
+++ b/thewalrus/_permanent.py
@@ -28,7 +28,7 @@ from numba import jit, prange
 
 from scipy.special import factorial
 
-from ._hafnian import hafnian_repeated, find_kept_edges
+from ._hafnian import hafnian_repeated, find_kept_edges, widen_integers
 
 
 def perm(A, method="bbfg"):
@@ -59,6 +59,8 @@ def perm(A, method="bbfg"):
     if np.isnan(A).any():
         raise ValueError("Input matrix must not contain NaNs.")
 
+    A = widen_integers(A)
+
     if matshape[0] == 0:
         return A.dtype.type(1.0)
 
-- 
2.43.0


From 6c4ce923da3e6f11ec8c355736da5ded123afa54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:13 +0000
Subject: [PATCH 44/49] fix: density_matrix_element accepts photon numbers
 given as arrays

---
 thewalrus/quantum/fock_tensors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/quantum/fock_tensors.py b/thewalrus/quantum/fock_tensors.py
index e4671bd..d1ddd18 100644
--- a/thewalrus/quantum/fock_tensors.py
+++ b/thewalrus/quantum/fock_tensors.py
@@ -206,7 +206,7 @@ def density_matrix_element(mu, cov, i, j, include_prefactor=True, tol=1e-10, hba
     Returns:
         complex: the density matrix element
     """
-    rpt = i + j
+    rpt = list(i) + list(j)
     beta = complex_to_real_displacements(mu, hbar=hbar)
     A = Amat(cov, hbar=hbar)
     if np.linalg.norm(beta) < tol:
-- 
2.43.0


From a059db36c5e7dfc1d6b8fd822a596931a2a7e8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:12 +0000
Subject: [PATCH 45/49] fix: total photon number probabilities when the
 hypergeometric function overflows

---
 .../quantum/photon_number_distributions.py    | 28 +++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/thewalrus/quantum/photon_number_distributions.py b/thewalrus/quantum/photon_number_distributions.py
index e3ad3da..c98c169 100644
--- a/thewalrus/quantum/photon_number_distributions.py
+++ b/thewalrus/quantum/photon_number_distributions.py
@@ -94,6 +94,30 @@ def _convolve_squeezed_state_distribution(s, cutoff=50, padding_factor=2):
     return ps
 
 
+def _total_photon_recurrence(n, k, s, eta, pref):
+    r"""Evaluates ``total_photon_number_distribution`` for arguments for which its hypergeometric
+    function overflows, using the recurrence relation obeyed by the Taylor coefficients of the generating
+    function :math:`[(1-t^2)/(1-t^2(1-\eta+\eta z)^2)]^{k/2}`, with :math:`t = \tanh(s)`.
+
+    Args:
+        n (int): number of photons
+        k (int): number of squeezed modes
+        s (float): squeezing parameter
+        eta (float): transmission parameter, between 0 and 1 inclusive
+        pref (float): use to return the probability times ``pref**n``
+    Returns:
+        (float): probability of observing a total of ``n`` photons or the probability times ``pref ** n``.
+    """
+    t2 = np.tanh(s) ** 2
+    a = 1 - t2 * (1 - eta) ** 2
+    b = 2 * t2 * (1 - eta) * eta * pref / a
+    c = t2 * (eta * pref) ** 2 / a
+    prev, prob = 0.0, ((1 - t2) / a) ** (k / 2)
+    for m in range(int(n)):
+        prev, prob = prob, (b * (m + k / 2) * prob + c * (m - 1 + k) * prev) / (m + 1)
+    return prob
+
+
 def total_photon_number_distribution(n, k, s, eta, pref=1.0):
     r"""Probability of observing a total of :math:`n` photons when :math:`k` identical
     single-mode squeezed vacua with squeezing parameter :math:`s` undergo loss by transmission :math:`\eta`.
@@ -118,7 +142,7 @@ def total_photon_number_distribution(n, k, s, eta, pref=1.0):
             * (1 / np.cosh(s)) ** k
             * (pref * eta * np.tanh(s)) ** n
         )
-        return peven
+        return peven if np.all(np.isfinite(peven)) else _total_photon_recurrence(n, k, s, eta, pref)
 
     podd = (
         (1 + n)
@@ -129,7 +153,7 @@ def total_photon_number_distribution(n, k, s, eta, pref=1.0):
         * np.tanh(s)
         * (pref * eta * np.tanh(s)) ** n
     )
-    return podd
+    return podd if np.all(np.isfinite(podd)) else _total_photon_recurrence(n, k, s, eta, pref)
 
 
 def characteristic_function(
-- 
2.43.0


From f24ee111828dc462f1a39cae8b0e49f28d581003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:07 +0000
Subject: [PATCH 46/49] fix: binomial coefficients of more than 61 repetitions
 do not wrap around

---
 thewalrus/_hafnian.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/thewalrus/_hafnian.py b/thewalrus/_hafnian.py
index 3e9c34f..d7ed28e 100644
--- a/thewalrus/_hafnian.py
+++ b/thewalrus/_hafnian.py
@@ -32,16 +32,16 @@ def nb_binom(n, k):  # pragma: no cover
         k (int): how many are chosen
 
     Returns:
-        int: how many ways of choosing
+        float: how many ways of choosing
     """
     if k < 0 or k > n:
         return 0
     if k in (0, n):
         return 1
-    binom = 1
+    binom = 1.0  # a 64-bit integer overflows for n > 61
     for i in range(min(k, n - k)):
         binom *= n - i
-        binom //= i + 1
+        binom /= i + 1
     return binom
 
 
@@ -55,7 +55,7 @@ def precompute_binoms(max_binom):  # pragma: no cover
     Returns:
         array: ``max_binom + 1 * max_binom + 1`` array of binomial coefficients
     """
-    binoms = np.zeros((max_binom + 1, max_binom + 1), dtype=type(max_binom))
+    binoms = np.zeros((max_binom + 1, max_binom + 1), dtype=np.float64)
     for i in range(max_binom + 1):
         for j in range(max_binom + 1):
             binoms[i, j] = nb_binom(i, j)
-- 
2.43.0


From 9e5d554a8ffad7b200e3ab21b333289e2f7c2be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:07 +0000
Subject: [PATCH 47/49] fix: hafnian_batched passes the requested tolerances on

---
 thewalrus/_hermite_multidimensional.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/thewalrus/_hermite_multidimensional.py b/thewalrus/_hermite_multidimensional.py
index 7a20b61..cb01e01 100644
--- a/thewalrus/_hermite_multidimensional.py
+++ b/thewalrus/_hermite_multidimensional.py
@@ -220,7 +220,14 @@ def hafnian_batched(A, cutoff, mu=None, rtol=1e-05, atol=1e-08, renorm=False, ma
     # The minus signs are intentional and are due to the fact that
     # Dodonov et al. in PRA 50, 813 (1994) use (p,q) ordering instead of (q,p) ordering
     return hermite_multidimensional(
-        -A, cutoff, y=mu, renorm=renorm, make_tensor=make_tensor, modified=True
+        -A,
+        cutoff,
+        y=mu,
+        renorm=renorm,
+        make_tensor=make_tensor,
+        modified=True,
+        rtol=rtol,
+        atol=atol,
     )
 
 
-- 
2.43.0


From ae8f6c5fdda2baafaa0f0af2f53d3af9d67c072c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:12 +0000
Subject: [PATCH 48/49] fix: batched loop hafnians with an odd number of fixed
 photons support a cutoff of zero

---
 thewalrus/loop_hafnian_batch.py       | 9 ++++++---
 thewalrus/loop_hafnian_batch_gamma.py | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/thewalrus/loop_hafnian_batch.py b/thewalrus/loop_hafnian_batch.py
index e46fbd2..6dce535 100644
--- a/thewalrus/loop_hafnian_batch.py
+++ b/thewalrus/loop_hafnian_batch.py
@@ -299,6 +299,9 @@ def loop_hafnian_batch(A, D, fixed_reps, N_cutoff, glynn=True):
     edges = add_batch_edges_odd(fixed_edges, oddmode)
     Ax = Anz[np.ix_(edges, edges)].astype(np.complex128)
     Dx = Dnz[edges].astype(np.complex128)
-    batch_max = (N_cutoff - 1) // 2
-    even_cutoff = 1 - (N_cutoff % 2)
-    return _calc_loop_hafnian_batch_odd(Ax, Dx, fixed_m_reps, batch_max, even_cutoff, glynn=glynn)
+    # the batched mode needs room for the photon paired with the odd mode
+    cutoff = max(N_cutoff, 1)
+    batch_max = (cutoff - 1) // 2
+    even_cutoff = 1 - (cutoff % 2)
+    H_batch = _calc_loop_hafnian_batch_odd(Ax, Dx, fixed_m_reps, batch_max, even_cutoff, glynn=glynn)
+    return H_batch[: N_cutoff + 1]
diff --git a/thewalrus/loop_hafnian_batch_gamma.py b/thewalrus/loop_hafnian_batch_gamma.py
index 35f630a..7ec0352 100644
--- a/thewalrus/loop_hafnian_batch_gamma.py
+++ b/thewalrus/loop_hafnian_batch_gamma.py
@@ -262,8 +262,11 @@ def loop_hafnian_batch_gamma(A, D, fixed_reps, N_cutoff, glynn=True):
     edges = add_batch_edges_odd(fixed_edges, oddmode)
     Ax = Anz[np.ix_(edges, edges)].astype(np.complex128)
     Dx = Dnz[:, edges].astype(np.complex128)
-    batch_max = (N_cutoff - 1) // 2
-    even_cutoff = 1 - (N_cutoff % 2)
-    return _calc_loop_hafnian_batch_gamma_odd(
+    # the batched mode needs room for the photon paired with the odd mode
+    cutoff = max(N_cutoff, 1)
+    batch_max = (cutoff - 1) // 2
+    even_cutoff = 1 - (cutoff % 2)
+    H_batch = _calc_loop_hafnian_batch_gamma_odd(
         Ax, Dx, fixed_m_reps, batch_max, even_cutoff, glynn=glynn
     )
+    return H_batch[:, : N_cutoff + 1]
-- 
2.43.0


From fc21a1d04381afce0a7a52d72a924f88574ee447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:39 +0000
Subject: [PATCH 49/49] fix: hafnian_banded and low_rank_hafnian of the empty
 matrix are one

---
 thewalrus/_hafnian.py      | 2 ++
 thewalrus/_low_rank_haf.py | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/thewalrus/_hafnian.py b/thewalrus/_hafnian.py
index d7ed28e..61b4319 100644
--- a/thewalrus/_hafnian.py
+++ b/thewalrus/_hafnian.py
@@ -970,6 +970,8 @@ def hafnian_banded(A, loop=False, rtol=1e-05, atol=1e-08):
     input_validation(A, atol=atol, rtol=rtol)
     A = widen_integers(A)
     (n, _) = A.shape
+    if n == 0:
+        return 1
     w = bandwidth(A)
     if not loop:
         A = A - np.diag(np.diag(A))
diff --git a/thewalrus/_low_rank_haf.py b/thewalrus/_low_rank_haf.py
index defb4d0..edf6f09 100644
--- a/thewalrus/_low_rank_haf.py
+++ b/thewalrus/_low_rank_haf.py
@@ -64,7 +64,9 @@ def low_rank_hafnian(G):
         (complex): hafnian of A.
     """
     n, r = G.shape
-    if n % 2 != 0:
+    if n == 0:
+        return 1
+    if n % 2 != 0 or r == 0:
         return 0
     if r == 1:
         return factorial2(n - 1, extend="complex") * np.prod(G)
-- 
2.43.0

