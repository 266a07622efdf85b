From 566d258e6429eb57a373da5b029f41605f93c87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:43 +0000
Subject: [PATCH 1/7] fix: correct the cross terms of the incremental cSIL
 similarity update

A new cluster's entry used <x, v> instead of 2 <x, v>, and a known cluster's
entry counted the new sample's cross term twice, so incremental cSIL did not
match its batch value.
---
 src/cvi/modules/cSIL.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cvi/modules/cSIL.py b/src/cvi/modules/cSIL.py
index 93c0911..21d1dd3 100644
--- a/src/cvi/modules/cSIL.py
+++ b/src/cvi/modules/cSIL.py
@@ -85,7 +85,7 @@ class cSIL(_base.CVI):
                     C = (
                         CP_new
                         + np.inner(self._v[cl, :], self._v[cl, :])
-                        - np.inner(G_new, self._v[cl, :])
+                        - 2 * np.inner(G_new, self._v[cl, :])
                     )
                     S_col_new[cl] = C
                     C = (
@@ -140,7 +140,7 @@ class cSIL(_base.CVI):
                     self._CP[i_label]
                     + np.inner(diff_x_v, diff_x_v)
                     + self._n[i_label] * np.inner(self._v[cl, :], self._v[cl, :])
-                    - 2 * np.inner(G_new, self._v[cl, :])
+                    - 2 * np.inner(self._G[i_label, :], self._v[cl, :])
                 )
                 S_col_new[cl] = C / n_new
                 # Row "bmu_temp" - E
-- 
2.43.0


From 1562d7f606fe251dd67b033feb22617b871631be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:43 +0000
Subject: [PATCH 2/7] fix: accept arbitrary integer labels in batch mode

The batch updates only look at labels 0..k-1; any other labelling (e.g. 1-based
or non-contiguous) silently produced nan, unlike incremental mode.
---
 src/cvi/modules/_base.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/cvi/modules/_base.py b/src/cvi/modules/_base.py
index e931411..c1584ac 100644
--- a/src/cvi/modules/_base.py
+++ b/src/cvi/modules/_base.py
@@ -144,14 +144,19 @@ class CVI():
             # If we haven't done a batch update yet
             if not self._is_setup:
 
+                # Find the unique labels and each sample's index into them
+                unique_labels, internal_labels = np.unique(
+                    label, return_inverse=True
+                )
+
                 # Check that there are at least two unique labels
-                if not len(np.unique(label)) > 1:
+                if not len(unique_labels) > 1:
                     raise ValueError(
                         "Batch CVI mode requires at least two unique labels"
                     )
 
-                # Do a batch update
-                self._param_batch(data, label)
+                # Do a batch update with contiguous zero-indexed labels
+                self._param_batch(data, internal_labels.reshape(-1))
 
             # Otherwise, we are already setup
             else:
-- 
2.43.0


From 20add0ca4a3b1a70692ff781fe7b1576c7620fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:43 +0000
Subject: [PATCH 3/7] fix: refuse incremental updates after a batch update

The documented restriction was only enforced in the other direction: a sample
after a batch was assigned to the wrong cluster (the label map is empty) and
silently returned a wrong value, or failed with an IndexError.
---
 src/cvi/modules/_base.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/cvi/modules/_base.py b/src/cvi/modules/_base.py
index c1584ac..2c760e3 100644
--- a/src/cvi/modules/_base.py
+++ b/src/cvi/modules/_base.py
@@ -68,6 +68,7 @@ class CVI():
         self._n_clusters = 0
         self.criterion_value = 0.0
         self._is_setup = False
+        self._is_batch = False
 
     def _setup(self, sample: np.ndarray):
         """
@@ -102,6 +103,7 @@ class CVI():
         # Infer the data dimension and number of samples
         self._n_samples, self._dim = data.shape
         self._is_setup = True
+        self._is_batch = True
 
     @abstractmethod
     def _param_inc(self, sample: np.ndarray, label: int):
@@ -136,6 +138,13 @@ class CVI():
 
         # If we got 1D data, do a quick update
         if (data.ndim == 1):
+
+            # Error until batch to incremental is supported
+            if self._is_batch:
+                raise ValueError(
+                    "Switching from batch to incremental not supported"
+                )
+
             self._param_inc(data, label)
 
         # Otherwise, we got 2D data and do the correct update
-- 
2.43.0


From 8fc31a694e4b5e379443b3153dfb6d80606cf469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:43 +0000
Subject: [PATCH 4/7] fix: check sample length and label count before changing
 any state

A sample of another length left the label map, the mean or the counts half
updated (or was silently broadcast when of length one), which corrupted every
later value; a batch with a wrong number of labels was silently accepted or
left the object unusable.
---
 src/cvi/modules/_base.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/cvi/modules/_base.py b/src/cvi/modules/_base.py
index 2c760e3..671bf59 100644
--- a/src/cvi/modules/_base.py
+++ b/src/cvi/modules/_base.py
@@ -145,6 +145,12 @@ class CVI():
                     "Switching from batch to incremental not supported"
                 )
 
+            # Check the sample against the established dimension
+            if self._is_setup and len(data) != self._dim:
+                raise ValueError(
+                    f"Expected a sample of length {self._dim}, recieved {len(data)}"
+                )
+
             self._param_inc(data, label)
 
         # Otherwise, we got 2D data and do the correct update
@@ -164,6 +170,12 @@ class CVI():
                         "Batch CVI mode requires at least two unique labels"
                     )
 
+                # Check that there is one label for each sample
+                if internal_labels.size != data.shape[0]:
+                    raise ValueError(
+                        "Batch CVI mode requires one label for each sample"
+                    )
+
                 # Do a batch update with contiguous zero-indexed labels
                 self._param_batch(data, internal_labels.reshape(-1))
 
-- 
2.43.0


From bc42fd51382e6f5f1ffdf71db4777ace88b9eb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:43 +0000
Subject: [PATCH 5/7] fix: copy the first sample into the running mean

The mean aliased the caller's array, so reusing one buffer for streaming
corrupted the overall mean of CH and WB.
---
 src/cvi/modules/CH.py   | 2 +-
 src/cvi/modules/DB.py   | 2 +-
 src/cvi/modules/GD43.py | 2 +-
 src/cvi/modules/GD53.py | 2 +-
 src/cvi/modules/WB.py   | 2 +-
 src/cvi/modules/XB.py   | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/cvi/modules/CH.py b/src/cvi/modules/CH.py
index 8a26113..a9763c3 100644
--- a/src/cvi/modules/CH.py
+++ b/src/cvi/modules/CH.py
@@ -54,7 +54,7 @@ class CH(_base.CVI):
 
         # CH-specific setup
         self._SEP = np.zeros([self._dim])
-        self._mu = sample
+        self._mu = np.array(sample)
 
     @_base._add_docs(_base._param_inc_doc)
     def _param_inc(self, sample: np.ndarray, label: int):
diff --git a/src/cvi/modules/DB.py b/src/cvi/modules/DB.py
index 56275cd..8f603db 100644
--- a/src/cvi/modules/DB.py
+++ b/src/cvi/modules/DB.py
@@ -51,7 +51,7 @@ class DB(_base.CVI):
         super()._setup(sample)
 
         # DB-specific setup
-        self._mu = sample
+        self._mu = np.array(sample)
 
     @_base._add_docs(_base._param_inc_doc)
     def _param_inc(self, sample: np.ndarray, label: int):
diff --git a/src/cvi/modules/GD43.py b/src/cvi/modules/GD43.py
index 388780a..867fda4 100644
--- a/src/cvi/modules/GD43.py
+++ b/src/cvi/modules/GD43.py
@@ -55,7 +55,7 @@ class GD43(_base.CVI):
         super()._setup(sample)
 
         # GD43-specific setup
-        self._mu = sample
+        self._mu = np.array(sample)
 
     @_base._add_docs(_base._param_inc_doc)
     def _param_inc(self, sample: np.ndarray, label: int):
diff --git a/src/cvi/modules/GD53.py b/src/cvi/modules/GD53.py
index 4134a40..e53ae1f 100644
--- a/src/cvi/modules/GD53.py
+++ b/src/cvi/modules/GD53.py
@@ -55,7 +55,7 @@ class GD53(_base.CVI):
         super()._setup(sample)
 
         # GD53-specific setup
-        self._mu = sample
+        self._mu = np.array(sample)
 
     @_base._add_docs(_base._param_inc_doc)
     def _param_inc(self, sample: np.ndarray, label: int):
diff --git a/src/cvi/modules/WB.py b/src/cvi/modules/WB.py
index d1694eb..62a639e 100644
--- a/src/cvi/modules/WB.py
+++ b/src/cvi/modules/WB.py
@@ -56,7 +56,7 @@ class WB(_base.CVI):
 
         # WB-specific setup
         self._SEP = np.zeros([self._dim])
-        self._mu = sample
+        self._mu = np.array(sample)
 
     @_base._add_docs(_base._param_inc_doc)
     def _param_inc(self, sample: np.ndarray, label: int):
diff --git a/src/cvi/modules/XB.py b/src/cvi/modules/XB.py
index 53dea02..ded3bc3 100644
--- a/src/cvi/modules/XB.py
+++ b/src/cvi/modules/XB.py
@@ -52,7 +52,7 @@ class XB(_base.CVI):
 
         # XB-specific setup
         self._SEP = np.zeros([self._dim])
-        self._mu = sample
+        self._mu = np.array(sample)
 
     @_base._add_docs(_base._param_inc_doc)
     def _param_inc(self, sample: np.ndarray, label: int):
-- 
2.43.0


From da648244bbd4bb65e1e18b1e573b0c15c81a77ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:52 +0000
Subject: [PATCH 6/7] fix: compute in double precision for every input number
 type

Products of narrow integer samples wrapped around (uint8 image data, for
instance), which gave wrong cSIL and rCIP values.
---
 src/cvi/modules/_base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cvi/modules/_base.py b/src/cvi/modules/_base.py
index 671bf59..1bd2384 100644
--- a/src/cvi/modules/_base.py
+++ b/src/cvi/modules/_base.py
@@ -136,6 +136,9 @@ class CVI():
             The CVI's criterion value.
         """
 
+        # Compute in double precision regardless of the provided number type
+        data = np.asarray(data, dtype=float)
+
         # If we got 1D data, do a quick update
         if (data.ndim == 1):
 
-- 
2.43.0


From 7976937fc2a0df8792640543cbe9e00120cca660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:52 +0000
Subject: [PATCH 7/7] fix: centre the samples before forming the batch rCIP
 covariance

The difference of two large products lost all digits against the diagonal
regularisation, so repeated or large 1-D values gave nan or wrong batch values
where the incremental update was right.
---
 src/cvi/modules/rCIP.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cvi/modules/rCIP.py b/src/cvi/modules/rCIP.py
index e9bf5a4..2f8e4c5 100644
--- a/src/cvi/modules/rCIP.py
+++ b/src/cvi/modules/rCIP.py
@@ -181,10 +181,10 @@ class rCIP(_base.CVI):
             self._n[ix] = subset.shape[0]
             self._v[ix, :] = np.mean(subset, axis=0)
             if self._n[ix] > 1:
+                diff_x_v = subset - self._v[ix, :]
                 self._sigma[:, :, ix] = (
                     (1 / (self._n[ix] - 1)) * (
-                        np.transpose(subset) @ subset
-                        - self._n[ix] * np.outer(self._v[ix, :], self._v[ix, :])
+                        np.transpose(diff_x_v) @ diff_x_v
                     ) + self._delta_term
                 )
             else:
-- 
2.43.0

