From e068338c1305424c06cc247d9435ab0f4f0ae272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 01/28] fix: ESE passes the POT threshold to genpareto.fit as a
 scalar

A one-element list is rejected by current SciPy/NumPy, so ESE raised
ValueError as soon as any weight increment exceeded its threshold.
---
 padasip/detection/ese.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/padasip/detection/ese.py b/padasip/detection/ese.py
index cc5ad45..bae8d95 100644
--- a/padasip/detection/ese.py
+++ b/padasip/detection/ese.py
@@ -133,7 +133,7 @@ def ESE(w, window=1000, pot_method="10%"):
         for j in range(filter_len):
             poted_values = pot(dw[i - window:i, j], pot_method)
             if dw[i, j] > poted_values[-1]:
-                fit = genpareto.fit(poted_values, floc=[poted_values[-1]])
+                fit = genpareto.fit(poted_values, floc=poted_values[-1])
                 if dw[i, j] >= fit[1]:
                     hpp[i - window, j] = 1 - genpareto.cdf(dw[i, j], fit[0], fit[1], fit[2]) + 1e-20
 
-- 
2.43.0


From 361b9971aa8b3bd3b955763fe2659cd7885fd636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:18 +0000
Subject: [PATCH 02/28] fix: filter integer input samples in floating point

run() kept the dtype of x, so for narrow integer samples (int16 audio,
uint8 ADC codes) products such as the input power overflowed silently
(NLMS, NLMF, NSSLMS, GNGD, RLS, VSLMS).
---
 padasip/filters/base_filter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/padasip/filters/base_filter.py b/padasip/filters/base_filter.py
index 53a55cc..5a19987 100644
--- a/padasip/filters/base_filter.py
+++ b/padasip/filters/base_filter.py
@@ -194,7 +194,7 @@ class AdaptiveFilter():
         self.n = len(x[0])
         # prepare data
         try:
-            x = np.array(x)
+            x = np.array(x, dtype="float64")
             d = np.array(d)
         except:
             raise ValueError('Impossible to convert x or d to a numpy array')
@@ -306,7 +306,7 @@ class AdaptiveFilterAP(AdaptiveFilter):
         self.n = len(x[0])
         # prepare data
         try:
-            x = np.array(x)
+            x = np.array(x, dtype="float64")
             d = np.array(d)
         except:
             raise ValueError('Impossible to convert x or d to a numpy array')
-- 
2.43.0


From dcd27b1d7814918354fde37395212c5bf28be373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:24 +0000
Subject: [PATCH 03/28] fix: adapt() takes a private float copy of the sample

GNGD and the VSLMS filters remember the last sample.  They kept a
reference to the caller's array, so refilling one measurement buffer
in place changed the remembered sample and thus the adaptation.  Also
narrow integer samples overflowed, as in run().
---
 padasip/filters/base_filter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/padasip/filters/base_filter.py b/padasip/filters/base_filter.py
index 5a19987..126145f 100644
--- a/padasip/filters/base_filter.py
+++ b/padasip/filters/base_filter.py
@@ -161,6 +161,7 @@ class AdaptiveFilter():
 
         * `x` : input array (1-dimensional array)
         """
+        x = np.array(x, dtype="float64")
         y = self.predict(x)
         e = d - y
         self.w += self.learning_rule(e, x)
-- 
2.43.0


From 83301a6ea1368febeac140cf28cf7e89c001293a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:28 +0000
Subject: [PATCH 04/28] fix: reject samples of wrong width before touching the
 filter

run() overwrote the filter size with the width of x before failing on
it, AP and OCNLMS had already shifted their memory when adapt() failed
(or silently broadcast a one-element sample), leaving a corrupted
filter behind a rejected call.  A run over no samples is now empty
instead of an IndexError, as pretrained_run() needs for small data.
---
 padasip/filters/base_filter.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/padasip/filters/base_filter.py b/padasip/filters/base_filter.py
index 126145f..652b7fb 100644
--- a/padasip/filters/base_filter.py
+++ b/padasip/filters/base_filter.py
@@ -162,6 +162,8 @@ class AdaptiveFilter():
         * `x` : input array (1-dimensional array)
         """
         x = np.array(x, dtype="float64")
+        if not x.shape == (self.n,):
+            raise ValueError('The size of vector x must agree with filter size.')
         y = self.predict(x)
         e = d - y
         self.w += self.learning_rule(e, x)
@@ -192,7 +194,8 @@ class AdaptiveFilter():
         N = len(x)
         if not len(d) == N:
             raise ValueError('The length of vector d and matrix x must agree.')
-        self.n = len(x[0])
+        if N > 0 and not len(x[0]) == self.n:
+            raise ValueError('The number of columns of x must agree with filter size.')
         # prepare data
         try:
             x = np.array(x, dtype="float64")
@@ -263,6 +266,9 @@ class AdaptiveFilterAP(AdaptiveFilter):
 
         * `x` : input array (1-dimensional array)
         """
+        x = np.array(x, dtype="float64")
+        if not x.shape == (self.n,):
+            raise ValueError('The size of vector x must agree with filter size.')
         # create input matrix and target vector
         self.x_mem[:, 1:] = self.x_mem[:, :-1]
         self.x_mem[:, 0] = x
@@ -304,7 +310,8 @@ class AdaptiveFilterAP(AdaptiveFilter):
         N = len(x)
         if not len(d) == N:
             raise ValueError('The length of vector d and matrix x must agree.')
-        self.n = len(x[0])
+        if N > 0 and not len(x[0]) == self.n:
+            raise ValueError('The number of columns of x must agree with filter size.')
         # prepare data
         try:
             x = np.array(x, dtype="float64")
-- 
2.43.0


From 14daddfbda766e8d895c362249ad4f78ad8a4ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:33 +0000
Subject: [PATCH 05/28] fix: restore the default learning rate of LMS, LMF,
 SSLMS and AP

The documented construction with the filter size only,
e.g. FilterLMS(n), raised TypeError since the 1.2.0 refactoring.
---
 padasip/filters/base_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/padasip/filters/base_filter.py b/padasip/filters/base_filter.py
index 652b7fb..dd47a74 100644
--- a/padasip/filters/base_filter.py
+++ b/padasip/filters/base_filter.py
@@ -11,7 +11,7 @@ class AdaptiveFilter():
     Base class for adaptive filter classes. It puts together some functions
     used by all adaptive filters.
     """
-    def __init__(self, n, mu, w="random"):
+    def __init__(self, n, mu=0.01, w="random"):
         """
         This class represents an generic adaptive filter.
 
-- 
2.43.0


From 137ccf0d0f8e2f942063de57352dae1580aaeccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:18 +0000
Subject: [PATCH 06/28] fix: learning_entropy accepts the sensitivities as an
 array

The documented 1d array of sensitivities raised "truth value of an
array is ambiguous".
---
 padasip/detection/le.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/padasip/detection/le.py b/padasip/detection/le.py
index 725e438..7116bca 100644
--- a/padasip/detection/le.py
+++ b/padasip/detection/le.py
@@ -167,7 +167,7 @@ def learning_entropy(w, m=10, order=1, alpha=False):
     dw[order:] = np.abs(np.diff(dw, n=order, axis=0))
     # average floting window - window is k-m ... k-1
     awd = np.zeros(w.shape)
-    if not alpha:
+    if alpha is None or alpha is False or len(alpha) == 0:
         # estimate the ALPHA with multiscale approach
         swd = np.zeros(w.shape)
         for k in range(m, N):
-- 
2.43.0


From 57f0a3c1d14ce668df7812403763c5109e3d4730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:23 +0000
Subject: [PATCH 07/28] fix: LDA accepts the labels as a list

The documented list of labels was compared to each class as a whole,
which selected no sample at all, so the scatter matrices were garbage.
---
 padasip/preprocess/lda.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/padasip/preprocess/lda.py b/padasip/preprocess/lda.py
index 6ec1b02..8fd81b1 100644
--- a/padasip/preprocess/lda.py
+++ b/padasip/preprocess/lda.py
@@ -113,6 +113,7 @@ def LDA_base(x, labels):
       from LDA analysis
 
     """
+    labels = np.array(labels)
     classes = np.array(tuple(set(labels)))
     cols = x.shape[1]
     # mean values for every class
-- 
2.43.0


From 298a65cf9cfa9f3ea38fde094d6184e2b16c7bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:28 +0000
Subject: [PATCH 08/28] fix: LDA returns real features and discriminants

The eigenvalues of the scatter product are real, but np.linalg.eig
returns complex arrays when rounding splits the repeated zero
eigenvalue (and always does in recent NumPy).
---
 padasip/preprocess/lda.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/padasip/preprocess/lda.py b/padasip/preprocess/lda.py
index 8fd81b1..bbb156e 100644
--- a/padasip/preprocess/lda.py
+++ b/padasip/preprocess/lda.py
@@ -137,7 +137,7 @@ def LDA_base(x, labels):
     # eigenvalues and eigenvectors from scatter matrices
     scatter_product = np.dot(np.linalg.inv(scatter_within), scatter_between)
     eigen_values, eigen_vectors = np.linalg.eig(scatter_product)
-    return eigen_values, eigen_vectors
+    return eigen_values.real, eigen_vectors.real
 
 def LDA(x, labels, n=False):
     """
-- 
2.43.0


From 61cbce06f2d2c34460558e02a66b202dc9e238a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:33 +0000
Subject: [PATCH 09/28] fix: PCA decomposes the covariance as the symmetric
 matrix it is

np.linalg.eig returns complex arrays in recent NumPy, and does not
orthogonalise the eigenvectors of a repeated eigenvalue, so principal
components could be complex and mutually correlated.
---
 padasip/preprocess/pca.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/padasip/preprocess/pca.py b/padasip/preprocess/pca.py
index cc0b304..a8fbdc9 100644
--- a/padasip/preprocess/pca.py
+++ b/padasip/preprocess/pca.py
@@ -91,7 +91,7 @@ def PCA_components(x):
     except:
         raise ValueError('Impossible to convert x to a numpy array.')
     # eigen values and eigen vectors of data covariance matrix
-    eigen_values, eigen_vectors = np.linalg.eig(np.cov(x.T))
+    eigen_values, eigen_vectors = np.linalg.eigh(np.cov(x.T))
     # sort eigen vectors according biggest eigen value
     eigen_order = eigen_vectors.T[(-eigen_values).argsort()]
     # form output - order the eigenvalues
@@ -119,8 +119,11 @@ def PCA(x, n=False):
     assert x.shape[1] > n, "The requested n is bigger than \
         number of features in x."
     # eigen values and eigen vectors of data covariance matrix
-    eigen_values, eigen_vectors = np.linalg.eig(np.cov(x.T))
+    eigen_values, eigen_vectors = np.linalg.eigh(np.cov(x.T))
     # sort eigen vectors according biggest eigen value
     eigen_order = eigen_vectors.T[(-eigen_values).argsort()]
+    # the sign of an eigenvector is arbitrary, choose the one with positive sum
+    signs = np.where(np.sum(eigen_order, axis=1) < 0, -1., 1.)
+    eigen_order = eigen_order * signs[:, None]
     # form output - reduced x matrix
     return eigen_order[:n].dot(x.T).T
-- 
2.43.0


From 488a5f85c6de7ee8a76c7c6fa7a29c057ecdf8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:38 +0000
Subject: [PATCH 10/28] fix: evaluate errors of integer series in floating
 point

Differences of unsigned series wrapped around and squares of narrow
integers overflowed, so MSE, RMSE, MAE and logSE were silently wrong.
---
 padasip/misc/error_evaluation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/padasip/misc/error_evaluation.py b/padasip/misc/error_evaluation.py
index d2896f1..798ccb9 100644
--- a/padasip/misc/error_evaluation.py
+++ b/padasip/misc/error_evaluation.py
@@ -109,14 +109,14 @@ def get_valid_error(x1, x2=-1):
     # just error
     if isinstance(x2, int) and x2 == -1:
         try:
-            e = np.array(x1)
+            e = np.array(x1) * 1.
         except:
             raise ValueError('Impossible to convert series to a numpy array')
     # two series
     else:
         try:
-            x1 = np.array(x1)
-            x2 = np.array(x2)
+            x1 = np.array(x1) * 1.
+            x2 = np.array(x2) * 1.
         except:
             raise ValueError('Impossible to convert one of series to a numpy array')
         if not len(x1) == len(x2):
-- 
2.43.0


From 16a0f68e499a9a323c3969f780d619016d0d91b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:44 +0000
Subject: [PATCH 11/28] fix: ESE implements the documented POT method "30%"

Only the undocumented "35%" existed, "30%" raised IndexError.
---
 padasip/detection/ese.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/padasip/detection/ese.py b/padasip/detection/ese.py
index bae8d95..9f22d92 100644
--- a/padasip/detection/ese.py
+++ b/padasip/detection/ese.py
@@ -96,6 +96,8 @@ def pot(data, method):
         k = max(int((n ** (2/3))/np.log10(np.log10(n))), 1)
     elif method == "log10":
         k = max(int(np.log10(n)), 1)
+    elif method == "30%":
+        k = max(int(0.3 * n), 1)
     elif method == "35%":
         k = max(int(0.35 * n), 1)
     return sorted_data[:k]
-- 
2.43.0


From 1b3b415ef6912848ea353c9f5c4ba3730598b144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:50 +0000
Subject: [PATCH 12/28] fix: MSE of an MLP training epoch includes the last
 sample

---
 padasip/ann/mlp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/padasip/ann/mlp.py b/padasip/ann/mlp.py
index f0fa4fa..3613ea8 100644
--- a/padasip/ann/mlp.py
+++ b/padasip/ann/mlp.py
@@ -324,7 +324,7 @@ class NetworkMLP():
             for k in range(N):
                 self.predict(x[k])
                 e[(epoch*N)+k] = self.update(d[k])
-            MSE[epoch] = np.sum(e[epoch*N:(epoch+1)*N-1]**2) / N
+            MSE[epoch] = np.sum(e[epoch*N:(epoch+1)*N]**2) / N
         return e, MSE
 
     def run(self, x):
-- 
2.43.0


From 4287edb7582ba41e0e31840213a54e3b3d38c372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:56 +0000
Subject: [PATCH 13/28] fix: MLP training shuffles the samples in every epoch

As documented; the order was drawn only once for all the epochs.
---
 padasip/ann/mlp.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/padasip/ann/mlp.py b/padasip/ann/mlp.py
index 3613ea8..e09ab79 100644
--- a/padasip/ann/mlp.py
+++ b/padasip/ann/mlp.py
@@ -313,14 +313,14 @@ class NetworkMLP():
         else:
             e = np.zeros((epochs*N, self.outputs))
         MSE = np.zeros(epochs)
-        # shuffle data if demanded
-        if shuffle:
-            randomize = np.arange(len(x))
-            np.random.shuffle(randomize)
-            x = x[randomize]
-            d = d[randomize]
         # adaptation loop
         for epoch in range(epochs):
+            # shuffle data if demanded
+            if shuffle:
+                randomize = np.arange(len(x))
+                np.random.shuffle(randomize)
+                x = x[randomize]
+                d = d[randomize]
             for k in range(N):
                 self.predict(x[k])
                 e[(epoch*N)+k] = self.update(d[k])
-- 
2.43.0


From 5403c560dadc616653339fe73464a8f7c466f978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:01 +0000
Subject: [PATCH 14/28] fix: MLP back-propagates the gradient through every
 layer

Layers followed by more than one node scaled their delta by a stray
(1 - y), and layers below received weights that were already updated,
so the update was not a gradient step of the squared error.
---
 padasip/ann/mlp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/padasip/ann/mlp.py b/padasip/ann/mlp.py
index e09ab79..b5e07e6 100644
--- a/padasip/ann/mlp.py
+++ b/padasip/ann/mlp.py
@@ -183,9 +183,9 @@ class Layer():
             e = self.activation(self.y, f=self.f, der=True) * e * w
             dw = self.mu * np.outer(e, self.x)
         else:
-            e = self.activation(self.y, f=self.f, der=True) * (1 - self.y) * np.dot(e, w)
+            e = self.activation(self.y, f=self.f, der=True) * np.dot(e, w)
             dw = self.mu * np.outer(e, self.x)
-        w = self.w[:, 1:]
+        w = np.copy(self.w)[:, 1:]
         self.w += dw
         return w, e
 
-- 
2.43.0


From 697eed2665f6c0ce60fcd0ad1d87d3ebc231f012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:40 +0000
Subject: [PATCH 15/28] fix: predict() of OCNLMS does not alter the filter

Reading the memory moved its index, so every predict() of the
documented measure-predict-adapt loop shifted the memory and changed
the following adaptation.  The index is now moved by the adaptation
only; run() and adapt() give the same results as before.
---
 padasip/filters/ocnlms.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/padasip/filters/ocnlms.py b/padasip/filters/ocnlms.py
index 7e36644..145cc93 100644
--- a/padasip/filters/ocnlms.py
+++ b/padasip/filters/ocnlms.py
@@ -98,8 +98,10 @@ class FilterOCNLMS(AdaptiveFilter):
         """
         Override the parent class.
         """
+        self.shift_memory()
         self.update_memory_x(x)
         m_d, m_x = self.read_memory()
+        self.shift_memory()
         y = np.dot(self.w, x-m_x) + m_d
         self.update_memory_d(e + y)
         return self.mu / (self.eps + np.dot(x - m_x, x - m_x)) * e * (x - m_x)
@@ -157,8 +159,13 @@ class FilterOCNLMS(AdaptiveFilter):
         else:
             m_x = np.mean(self.mem_x, axis=0)
             m_d = np.mean(np.delete(self.mem_d, self.mem_idx))
+        return m_d, m_x
+
+    def shift_memory(self):
+        """
+        This function moves the memory index to the next position.
+        """
         self.mem_idx += 1
         if self.mem_idx > len(self.mem_x)-1:
             self.mem_idx = 0
             self.mem_empty = False
-        return m_d, m_x
-- 
2.43.0


From 992a51a67a481729720b5b06982521534f860dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:17 +0000
Subject: [PATCH 16/28] fix: evaluate errors of narrow float series in double
 precision

---
 padasip/misc/error_evaluation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/padasip/misc/error_evaluation.py b/padasip/misc/error_evaluation.py
index 798ccb9..f81f750 100644
--- a/padasip/misc/error_evaluation.py
+++ b/padasip/misc/error_evaluation.py
@@ -109,14 +109,14 @@ def get_valid_error(x1, x2=-1):
     # just error
     if isinstance(x2, int) and x2 == -1:
         try:
-            e = np.array(x1) * 1.
+            e = np.array(x1, dtype="float64")
         except:
             raise ValueError('Impossible to convert series to a numpy array')
     # two series
     else:
         try:
-            x1 = np.array(x1) * 1.
-            x2 = np.array(x2) * 1.
+            x1 = np.array(x1, dtype="float64")
+            x2 = np.array(x2, dtype="float64")
         except:
             raise ValueError('Impossible to convert one of series to a numpy array')
         if not len(x1) == len(x2):
-- 
2.43.0


From cd7d48daa11d1d49ddd4dfe09644dbe6f6bd18e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:22 +0000
Subject: [PATCH 17/28] fix: standardize computes offset and scale in double
 precision

---
 padasip/preprocess/standardize.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/padasip/preprocess/standardize.py b/padasip/preprocess/standardize.py
index f402b32..d6cad0b 100644
--- a/padasip/preprocess/standardize.py
+++ b/padasip/preprocess/standardize.py
@@ -78,22 +78,22 @@ def standardize(x, offset=None, scale=None):
 
     * `xs` : standardized series
     """
+    try:
+        x = np.array(x, dtype="float64")
+    except:
+        raise ValueError('The argument x is not numpy array or similar.')
     if offset is None:
-        offset = np.array(x).mean()
+        offset = x.mean()
     else:
         try:
             offset = float(offset)
         except:
             raise ValueError('The argument offset is not None or float')
     if scale is None:
-        scale = np.array(x).std()
+        scale = x.std()
     else:
         try:
             scale = float(scale)
         except:
             raise ValueError('The argument scale is not None or float')
-    try:
-        x = np.array(x, dtype="float64")
-    except:
-        raise ValueError('The argument x is not numpy array or similar.')
     return (x - offset) / scale
-- 
2.43.0


From 9a64a7d789cb7cac6c9ea908586f38ad1adeb315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:51 +0000
Subject: [PATCH 18/28] fix: pretrained_run rejects unusable data before
 training

---
 padasip/filters/base_filter.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/padasip/filters/base_filter.py b/padasip/filters/base_filter.py
index dd47a74..ff3f67f 100644
--- a/padasip/filters/base_filter.py
+++ b/padasip/filters/base_filter.py
@@ -143,6 +143,14 @@ class AdaptiveFilter():
 
         * `w` : vector of final weights (1 dimensional array).
         """
+        # check all data before any training
+        if not len(d) == len(x):
+            raise ValueError('The length of vector d and matrix x must agree.')
+        try:
+            x = np.array(x, dtype="float64")
+            d = np.array(d)
+        except:
+            raise ValueError('Impossible to convert x or d to a numpy array')
         Ntrain = int(len(d)*ntrain)
         # train
         for _ in range(epochs):
-- 
2.43.0


From 788051b4b14c15cc080961335048c5d6626162e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:00 +0000
Subject: [PATCH 19/28] fix: refuse initial weights that are not a vector of
 filter size

---
 padasip/filters/base_filter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/padasip/filters/base_filter.py b/padasip/filters/base_filter.py
index ff3f67f..4cf46a1 100644
--- a/padasip/filters/base_filter.py
+++ b/padasip/filters/base_filter.py
@@ -89,13 +89,13 @@ class AdaptiveFilter():
                 w = np.zeros(n)
             else:
                 raise ValueError('Impossible to understand the w')
-        elif len(w) == n:
+        else:
             try:
                 w = np.array(w, dtype="float64")
             except:
                 raise ValueError('Impossible to understand the w')
-        else:
-            raise ValueError('Impossible to understand the w')
+            if not w.shape == (n,):
+                raise ValueError('Impossible to understand the w')
         return w
 
     def predict(self, x):
-- 
2.43.0


From 3e3485294a81f8ca9f6ddc0eadad13db6ac036c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:31 +0000
Subject: [PATCH 20/28] fix: MLP refuses one-dimensional targets for several
 outputs with ValueError

---
 padasip/ann/mlp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/padasip/ann/mlp.py b/padasip/ann/mlp.py
index b5e07e6..7d54cb5 100644
--- a/padasip/ann/mlp.py
+++ b/padasip/ann/mlp.py
@@ -300,7 +300,7 @@ class NetworkMLP():
             if not len(d.shape) == 1:
                 raise ValueError('For one output MLP the d must have one dimension')
         else:
-            if not d.shape[1] == self.outputs:
+            if not d.shape[1:] == (self.outputs,):
                 raise ValueError('The number of outputs must agree with number of columns in d')
         try:
             x = np.array(x)
@@ -387,7 +387,7 @@ class NetworkMLP():
             if not len(d.shape) == 1:
                 raise ValueError('For one output MLP the d must have one dimension')
         else:
-            if not d.shape[1] == self.outputs:
+            if not d.shape[1:] == (self.outputs,):
                 raise ValueError('The number of outputs must agree with number of columns in d')
         try:
             x = np.array(x)
-- 
2.43.0


From 8695773ab3b6188dd5c6aab08dcb072d301082c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:50 +0000
Subject: [PATCH 21/28] fix: ESE sums logarithms, the product of many small
 probabilities underflows

---
 padasip/detection/ese.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/padasip/detection/ese.py b/padasip/detection/ese.py
index 9f22d92..67013c5 100644
--- a/padasip/detection/ese.py
+++ b/padasip/detection/ese.py
@@ -139,5 +139,5 @@ def ESE(w, window=1000, pot_method="10%"):
                 if dw[i, j] >= fit[1]:
                     hpp[i - window, j] = 1 - genpareto.cdf(dw[i, j], fit[0], fit[1], fit[2]) + 1e-20
 
-    ese_value = -np.log10(np.prod(hpp, axis=1))
+    ese_value = -np.sum(np.log10(hpp), axis=1)
     return np.append(np.zeros(window), ese_value)
-- 
2.43.0


From 54feea968f364c3b330d01c64dad57e8c34cfc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:39 +0000
Subject: [PATCH 22/28] fix: MLP predict() returns a copy of its output,
 update() still needs it

---
 padasip/ann/mlp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/padasip/ann/mlp.py b/padasip/ann/mlp.py
index 7d54cb5..5052968 100644
--- a/padasip/ann/mlp.py
+++ b/padasip/ann/mlp.py
@@ -427,7 +427,8 @@ class NetworkMLP():
             self.y = np.dot(self.w, self.x)
         else:
             self.y = np.sum(self.w*self.x, axis=1)
-        return self.y
+        # the caller gets a copy, update() needs the output as it was
+        return self.y.copy()
 
     def update(self, d):
         """
-- 
2.43.0


From f4800d346a4f47b1f2f41213578eb33e94d70d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:24 +0000
Subject: [PATCH 23/28] fix: refuse unusable targets before the filter learns
 or shifts its memory

---
 padasip/filters/base_filter.py | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/padasip/filters/base_filter.py b/padasip/filters/base_filter.py
index 4cf46a1..13d7362 100644
--- a/padasip/filters/base_filter.py
+++ b/padasip/filters/base_filter.py
@@ -148,7 +148,7 @@ class AdaptiveFilter():
             raise ValueError('The length of vector d and matrix x must agree.')
         try:
             x = np.array(x, dtype="float64")
-            d = np.array(d)
+            d = np.array(d, dtype="float64")
         except:
             raise ValueError('Impossible to convert x or d to a numpy array')
         Ntrain = int(len(d)*ntrain)
@@ -159,6 +159,23 @@ class AdaptiveFilter():
         y, e, w = self.run(d[Ntrain:], x[Ntrain:])
         return y, e, w
 
+    def check_target(self, d):
+        """
+        This function converts a single target value to float.
+
+        **Args:**
+
+        * `d` : desired value (float)
+
+        **Returns:**
+
+        * `d` : desired value (float)
+        """
+        try:
+            return float(np.array(d, dtype="float64").item())
+        except:
+            raise ValueError('The desired value d must be a number.')
+
     def adapt(self, d, x):
         """
         Adapt weights according one desired value and its input.
@@ -172,6 +189,7 @@ class AdaptiveFilter():
         x = np.array(x, dtype="float64")
         if not x.shape == (self.n,):
             raise ValueError('The size of vector x must agree with filter size.')
+        d = self.check_target(d)
         y = self.predict(x)
         e = d - y
         self.w += self.learning_rule(e, x)
@@ -207,9 +225,11 @@ class AdaptiveFilter():
         # prepare data
         try:
             x = np.array(x, dtype="float64")
-            d = np.array(d)
+            d = np.array(d, dtype="float64")
         except:
             raise ValueError('Impossible to convert x or d to a numpy array')
+        if N > 0 and not (x.shape == (N, self.n) and d.shape == (N,)):
+            raise ValueError('Vector d or matrix x has a wrong number of dimensions.')
         # create empty arrays
         y = np.zeros(N)
         e = np.zeros(N)
@@ -277,6 +297,7 @@ class AdaptiveFilterAP(AdaptiveFilter):
         x = np.array(x, dtype="float64")
         if not x.shape == (self.n,):
             raise ValueError('The size of vector x must agree with filter size.')
+        d = self.check_target(d)
         # create input matrix and target vector
         self.x_mem[:, 1:] = self.x_mem[:, :-1]
         self.x_mem[:, 0] = x
@@ -323,9 +344,11 @@ class AdaptiveFilterAP(AdaptiveFilter):
         # prepare data
         try:
             x = np.array(x, dtype="float64")
-            d = np.array(d)
+            d = np.array(d, dtype="float64")
         except:
             raise ValueError('Impossible to convert x or d to a numpy array')
+        if N > 0 and not (x.shape == (N, self.n) and d.shape == (N,)):
+            raise ValueError('Vector d or matrix x has a wrong number of dimensions.')
         # create empty arrays
         y = np.zeros(N)
         e = np.zeros(N)
-- 
2.43.0


From c4d5b3239614df1963bb04893f299118dbecdb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:44 +0000
Subject: [PATCH 24/28] fix: MLP refuses inputs and targets of wrong size
 before anything changes

---
 padasip/ann/mlp.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/padasip/ann/mlp.py b/padasip/ann/mlp.py
index 5052968..2a7b535 100644
--- a/padasip/ann/mlp.py
+++ b/padasip/ann/mlp.py
@@ -303,8 +303,8 @@ class NetworkMLP():
             if not d.shape[1:] == (self.outputs,):
                 raise ValueError('The number of outputs must agree with number of columns in d')
         try:
-            x = np.array(x)
-            d = np.array(d)
+            x = np.array(x, dtype="float64")
+            d = np.array(d, dtype="float64")
         except:
             raise ValueError('Impossible to convert x or d to a numpy array')
         # create empty arrays
@@ -418,6 +418,12 @@ class NetworkMLP():
             Size depends on number of MLP outputs.
 
         """
+        try:
+            x = np.array(x, dtype="float64")
+        except:
+            raise ValueError('Impossible to convert x to a numpy array')
+        if not x.size == self.n_input:
+            raise ValueError('The number of network inputs is not correct.')
         # forward pass to hidden layers
         for l in self.layers:
             x = l.predict(x)
@@ -446,6 +452,12 @@ class NetworkMLP():
             Size correspond to size of input `d`.
 
         """
+        try:
+            d = np.array(d, dtype="float64")
+        except:
+            raise ValueError('Impossible to convert d to a numpy array')
+        if self.outputs == 1 and not d.size == 1:
+            raise ValueError('For one output MLP the d must be a single value')
         # update output layer
         e = d - self.y
         error = np.copy(e)
-- 
2.43.0


From ab0304344ed3a7f6f258eca3de3da73a006e5832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:38 +0000
Subject: [PATCH 25/28] fix: MLP run() and test() read all data before the
 forward pass

---
 padasip/ann/mlp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/padasip/ann/mlp.py b/padasip/ann/mlp.py
index 2a7b535..715f697 100644
--- a/padasip/ann/mlp.py
+++ b/padasip/ann/mlp.py
@@ -344,7 +344,7 @@ class NetworkMLP():
         """
         # measure the data and check if the dimmension agree
         try:
-            x = np.array(x)
+            x = np.array(x, dtype="float64")
         except:
             raise ValueError('Impossible to convert x to a numpy array')
         N = len(x)
@@ -390,8 +390,8 @@ class NetworkMLP():
             if not d.shape[1:] == (self.outputs,):
                 raise ValueError('The number of outputs must agree with number of columns in d')
         try:
-            x = np.array(x)
-            d = np.array(d)
+            x = np.array(x, dtype="float64")
+            d = np.array(d, dtype="float64")
         except:
             raise ValueError('Impossible to convert x or d to a numpy array')
         # create empty arrays
-- 
2.43.0


From e4a1ebc91b85a37da002cae97c27d5071c2b0508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:32:06 +0000
Subject: [PATCH 26/28] fix: GMCC with alpha below one keeps its weights at
 zero error

---
 padasip/filters/gmcc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/padasip/filters/gmcc.py b/padasip/filters/gmcc.py
index a253b58..ef9e125 100644
--- a/padasip/filters/gmcc.py
+++ b/padasip/filters/gmcc.py
@@ -79,6 +79,9 @@ class FilterGMCC(AdaptiveFilter):
         """
         Override the parent class.
         """
+        if e == 0:
+            # the power below has no value there for alpha below one
+            return np.zeros(self.n)
         return self.mu * self.lambd * self.alpha * \
             np.exp(-self.lambd * (np.abs(e) ** self.alpha)) * \
             (np.abs(e) ** (self.alpha - 1)) * np.sign(e) * x
-- 
2.43.0


From af9bfb46a381fe502957a7bf24f77d3748b32450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:32:06 +0000
Subject: [PATCH 27/28] fix: ESE of a history shorter than its window is zero

---
 padasip/detection/ese.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/padasip/detection/ese.py b/padasip/detection/ese.py
index 67013c5..9c6491c 100644
--- a/padasip/detection/ese.py
+++ b/padasip/detection/ese.py
@@ -127,6 +127,8 @@ def ESE(w, window=1000, pot_method="10%"):
     dw = np.copy(w)
     dw[1:] = np.abs(np.diff(dw, n=1, axis=0))
     dw_count = int(dw.shape[0])
+    # a history shorter than the window has no scores yet
+    window = min(window, dw_count)
 
     hpp = np.ones((dw_count - window, filter_len))
     for i in range(window, dw.shape[0]):
-- 
2.43.0


From 7966c7e4e9dc7b370132a94e8e18dc75917e247c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:32:06 +0000
Subject: [PATCH 28/28] fix: vectors and scalars in place of the data matrix
 are refused with ValueError

---
 padasip/filters/__init__.py    |  7 ++++++-
 padasip/filters/base_filter.py | 14 +++++++-------
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/padasip/filters/__init__.py b/padasip/filters/__init__.py
index 32920b9..49cad37 100644
--- a/padasip/filters/__init__.py
+++ b/padasip/filters/__init__.py
@@ -164,6 +164,8 @@ Implemented filters
 Code explanation
 ==================
 """
+import numpy as np
+
 from padasip.filters.ap import FilterAP
 from padasip.filters.gmcc import FilterGMCC
 from padasip.filters.gngd import FilterGNGD
@@ -210,7 +212,10 @@ def filter_data(d, x, model="lms", **kwargs):
 
     """
     # overwrite n with correct size
-    kwargs["n"] = x.shape[1]
+    try:
+        kwargs["n"] = np.shape(x)[1]
+    except IndexError:
+        raise ValueError('The matrix x must have two dimensions.')
     # create filter according model
     if model.upper() not in FILTERS.keys():
         raise ValueError('Unknown model of filter {}'.format(model))
diff --git a/padasip/filters/base_filter.py b/padasip/filters/base_filter.py
index 13d7362..34e969a 100644
--- a/padasip/filters/base_filter.py
+++ b/padasip/filters/base_filter.py
@@ -144,7 +144,7 @@ class AdaptiveFilter():
         * `w` : vector of final weights (1 dimensional array).
         """
         # check all data before any training
-        if not len(d) == len(x):
+        if 0 in (np.ndim(d), np.ndim(x)) or not len(d) == len(x):
             raise ValueError('The length of vector d and matrix x must agree.')
         try:
             x = np.array(x, dtype="float64")
@@ -217,10 +217,10 @@ class AdaptiveFilter():
           Every row is set of the weights for given sample.
         """
         # measure the data and check if the dimension agree
-        N = len(x)
-        if not len(d) == N:
+        if 0 in (np.ndim(d), np.ndim(x)) or not len(d) == len(x):
             raise ValueError('The length of vector d and matrix x must agree.')
-        if N > 0 and not len(x[0]) == self.n:
+        N = len(x)
+        if N > 0 and not np.shape(x[0]) == (self.n,):
             raise ValueError('The number of columns of x must agree with filter size.')
         # prepare data
         try:
@@ -336,10 +336,10 @@ class AdaptiveFilterAP(AdaptiveFilter):
 
         """
         # measure the data and check if the dimmension agree
-        N = len(x)
-        if not len(d) == N:
+        if 0 in (np.ndim(d), np.ndim(x)) or not len(d) == len(x):
             raise ValueError('The length of vector d and matrix x must agree.')
-        if N > 0 and not len(x[0]) == self.n:
+        N = len(x)
+        if N > 0 and not np.shape(x[0]) == (self.n,):
             raise ValueError('The number of columns of x must agree with filter size.')
         # prepare data
         try:
-- 
2.43.0

