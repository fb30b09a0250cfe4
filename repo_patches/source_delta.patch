From 84694f78873edae6a264a9b5fb2c878679699392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:52 +0000
Subject: [PATCH 01/34] fix: estimate transition probabilities by exact
 division

Multiplying the counts by 1 / row_sum turned a certain transition into
0.9999999999999999 for some row sums (49, 98, 103, ...), so that absorbing
states were missed and their sojourn and passage times were finite.
---
 giddy/markov.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index 858e550..c35cb18 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -228,7 +228,7 @@ class Markov:
                     transitions[row, col] += sum(ending == j)
         self.transitions = transitions
         row_sum = transitions.sum(axis=1)
-        self.p = np.dot(np.diag(1 / (row_sum + (row_sum == 0))), transitions)
+        self.p = transitions / (row_sum + (row_sum == 0))[:, np.newaxis]
 
         if fill_empty_classes:
             self.p = fill_empty_diagonals(self.p)
@@ -977,8 +977,7 @@ class Spatial_Markov:
         for i, mat in enumerate(T):
             row_sum = mat.sum(axis=1)
             row_sum = row_sum + (row_sum == 0)
-            p_i = np.array(np.diag(1.0 / row_sum)).dot(np.array(mat))
-            P[i] = p_i
+            P[i] = mat / row_sum[:, np.newaxis]
 
         if fill_empty_classes:
             P = fill_empty_diagonals(P)
-- 
2.43.0


From 4114abf4d55591da00a0a5375badac696355da97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:52 +0000
Subject: [PATCH 02/34] fix: mean first passage times with non-trivial closed
 classes

For a reducible chain, only absorbing states were recognised as places from
which the destination is never reached. A closed class of several states made
the linear system singular: all passage times were reported as infinite, were
contaminated by rounding noise, or LinAlgError was raised.
---
 giddy/ergodic.py | 45 +++++++++++++++++++--------------------------
 1 file changed, 19 insertions(+), 26 deletions(-)

diff --git a/giddy/ergodic.py b/giddy/ergodic.py
index b92ad27..49351fb 100644
--- a/giddy/ergodic.py
+++ b/giddy/ergodic.py
@@ -327,33 +327,26 @@ rows to be 1 to make sure the matrix is stochastic.
             p_sub = np.delete(np.delete(P, desti, 0), desti, 1)
             p_calc = np.eye(k - 1) - p_sub
             m = np.full(k - 1, np.inf)
-            row0 = (p_calc != 0).sum(axis=1)
-            none0 = np.arange(k - 1)
-            try:
-                m[none0] = np.linalg.solve(p_calc, b)
-            except np.linalg.LinAlgError as err:
-                if "Singular matrix" in str(err) and (row0 == 0).sum() > 0:
-                    index0 = set(np.argwhere(row0 == 0).flatten())
-                    x = (p_calc[:, list(index0)] != 0).sum(axis=1)
-                    setx = set(np.argwhere(x).flatten())
-                    while not setx.issubset(index0):
-                        index0 = index0.union(setx)
-                        x = (p_calc[:, list(index0)] != 0).sum(axis=1)
-                        setx = set(np.argwhere(x).flatten())
-                    none0 = np.asarray(list(set(none0).difference(index0)))
-                    if len(none0) >= 1:
-                        p_calc = p_calc[none0, :][:, none0]
-                        b = b[none0]
-                        m[none0] = np.linalg.solve(p_calc, b)
-            recc = (
-                np.nan_to_num(
-                    (np.delete(P, desti, 1)[desti] * m), 0, posinf=np.inf
-                ).sum()
-                + 1
-            )
+            # states from which desti can be reached at all
+            reach = np.delete(P[:, desti], desti) != 0
+            while True:
+                grown = reach | (p_sub[:, reach] != 0).any(axis=1)
+                if (grown == reach).all():
+                    break
+                reach = grown
+            # states which may end up where desti can not be reached any more
+            lost = ~reach
+            while True:
+                grown = lost | (p_sub[:, lost] != 0).any(axis=1)
+                if (grown == lost).all():
+                    break
+                lost = grown
+            # desti is certain to be reached from the remaining states only
+            sure = np.flatnonzero(~lost)
+            m[sure] = np.linalg.solve(p_calc[sure, :][:, sure], b[sure])
+            p_desti = np.delete(P, desti, 1)[desti]
+            recc = (p_desti[p_desti != 0] * m[p_desti != 0]).sum() + 1
             mfpt_all[:, desti] = np.insert(m, desti, recc)
-            mfpt_all = np.where(mfpt_all < -1e16, np.inf, mfpt_all)
-            mfpt_all = np.where(mfpt_all > 1e16, np.inf, mfpt_all)
     return mfpt_all
 
 
-- 
2.43.0


From 5e4fc93b7646ab0b3d510dd1f2aa107f88362f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:52 +0000
Subject: [PATCH 03/34] fix: mean first passage times for integer transition
 matrices

The limiting matrix was allocated with the dtype of P, which truncated the
steady state distribution to zeros when P held integers.
---
 giddy/ergodic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/ergodic.py b/giddy/ergodic.py
index 49351fb..c11c673 100644
--- a/giddy/ergodic.py
+++ b/giddy/ergodic.py
@@ -204,7 +204,7 @@ def _mfpt_ergodic(P):
 
     P = np.asarray(P)
     k = P.shape[0]
-    A = np.zeros_like(P)
+    A = np.zeros((k, k))
     ss = _steady_state_ergodic(P)
     for j in range(k):
         A[:, j] = ss
-- 
2.43.0


From d1e1100e75a81e55d27f665d62d62300fbf3d4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:52 +0000
Subject: [PATCH 04/34] fix: one dimensional steady state for a single
 recurrent class

As documented, a chain which has only one recurrent class has a unique steady
state distribution of shape (k,), also when it has transient classes.
---
 giddy/ergodic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/ergodic.py b/giddy/ergodic.py
index c11c673..9400f83 100644
--- a/giddy/ergodic.py
+++ b/giddy/ergodic.py
@@ -145,7 +145,7 @@ rows to be 1 to make sure the matrix is stochastic.
                 "sure the matrix is stochastic." % rows0
             )
     mc = qe.MarkovChain(P)
-    num_classes = mc.num_communication_classes
+    num_classes = mc.num_recurrent_classes
     if num_classes == 1:
         return mc.stationary_distributions[0]
     else:
-- 
2.43.0


From 34de7c454f635e86fdd476ee76d7e9d5ca1c261b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:52 +0000
Subject: [PATCH 05/34] fix: keep different sequences apart when there are more
 than 10 classes

Concatenating the class codes without a separator made e.g. (1, 11) and
(11, 1) the same key, and the distance lookup failed with KeyError.
---
 giddy/sequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/sequence.py b/giddy/sequence.py
index 045f6cd..50887bb 100644
--- a/giddy/sequence.py
+++ b/giddy/sequence.py
@@ -336,7 +336,7 @@ class Sequence:
         """
         y_str = []
         for i in y_int:
-            y_str.append("".join(list(map(str, i))))
+            y_str.append(",".join(list(map(str, i))))
 
         moves_str, unique_indices = np.unique(y_str, axis=0, return_index=True)
         moves_int = y_int[unique_indices]
-- 
2.43.0


From 1004d4e8ab99de75c0cbc6940a04bd493aab694e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:52 +0000
Subject: [PATCH 06/34] fix: accept lists of sequences of varying lengths

Such sequences are documented as valid input, but only strings worked: numpy
refuses to build an array from lists of unequal lengths.
---
 giddy/sequence.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/giddy/sequence.py b/giddy/sequence.py
index 50887bb..e58f08e 100644
--- a/giddy/sequence.py
+++ b/giddy/sequence.py
@@ -177,7 +177,10 @@ class Sequence:
     """  # noqa E501
 
     def __init__(self, y, subs_mat=None, dist_type=None, indel=None, cluster_type=None):
-        y = np.asarray(y)
+        try:
+            y = np.asarray(y)
+        except ValueError:  # sequences of varying lengths
+            y = list(y)
         merged = list(itertools.chain.from_iterable(y))
         self.classes = np.unique(merged)
         self.k = len(self.classes)
-- 
2.43.0


From 09a5e14b1e1c003ad80ff9c10059b35781e1182b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:52 +0000
Subject: [PATCH 07/34] fix: raise an error for an unknown dist_type

Sequence() returned an object without any distance matrix.
---
 giddy/sequence.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/giddy/sequence.py b/giddy/sequence.py
index e58f08e..0bc3eff 100644
--- a/giddy/sequence.py
+++ b/giddy/sequence.py
@@ -280,6 +280,12 @@ class Sequence:
                             y_tran_index[i, j] = dict_trans_state[y_tran[j][i]]
                     self._om_dist(y_tran_index)
 
+                else:
+                    raise ValueError(
+                        f"`dist_type` {dist_type!r} is not one of 'hamming', "
+                        "'markov', 'interval', 'arbitrary' and 'tran'."
+                    )
+
         else:
             self._om_dist(y_int)
 
-- 
2.43.0


From c8953002ace7acc8cf99e93544fde56e72682dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:52 +0000
Subject: [PATCH 08/34] fix: exactly k sectors in the rose diagram

np.arange with a fractional step returned one cut too many for some k (12, 30,
46, ...), which added a sector beyond the full circle.
---
 giddy/directional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/directional.py b/giddy/directional.py
index 0a76da8..2894de2 100644
--- a/giddy/directional.py
+++ b/giddy/directional.py
@@ -212,7 +212,7 @@ class Rose:
         self.w = w
         self.k = k
         self.sw = 2 * np.pi / self.k
-        self.cuts = np.arange(0.0, 2 * np.pi + self.sw, self.sw)
+        self.cuts = np.linspace(0.0, 2 * np.pi, self.k + 1)
         observed = self._calc(Y, w, k)
         self.theta = observed["theta"]
         self.bins = observed["bins"]
-- 
2.43.0


From d0a0b69329a3e488b69cd4865794ffad63e8c44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:52 +0000
Subject: [PATCH 09/34] fix: keep the observed data of a Rose when it is
 permuted

permute() replaced Y and wY by those of its last random permutation, so that
later plots and heatmaps showed random vectors.
---
 giddy/directional.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/giddy/directional.py b/giddy/directional.py
index 2894de2..6da4cc2 100644
--- a/giddy/directional.py
+++ b/giddy/directional.py
@@ -211,6 +211,7 @@ class Rose:
         self.Y = Y
         self.w = w
         self.k = k
+        self._order = np.arange(len(Y))
         self.sw = 2 * np.pi / self.k
         self.cuts = np.linspace(0.0, 2 * np.pi, self.k + 1)
         observed = self._calc(Y, w, k)
@@ -219,6 +220,7 @@ class Rose:
         self.counts = observed["counts"]
         self.r = observed["r"]
         self.lag = observed["lag"]
+        self.wY = observed["lag"]
         self._dx = observed["dx"]
         self._dy = observed["dy"]
 
@@ -239,13 +241,14 @@ class Rose:
             that the focal unit and its lag move in opposite directions over
             the interval.
         """
-        rY = self.Y.copy()
+        rY = self.Y[self._order]  # continue from the last permutation
         idxs = np.arange(len(rY))
         counts = np.zeros((permutations, len(self.counts)))
         for m in range(permutations):
             np.random.shuffle(idxs)
             res = self._calc(rY[idxs, :], self.w, self.k)
             counts[m] = res["counts"]
+        self._order = self._order[idxs]
         self.counts_perm = counts
         self.larger_perm = np.array(
             [(counts[:, i] >= self.counts[i]).sum() for i in range(self.k)]
@@ -303,8 +306,6 @@ class Rose:
         wY = weights.lag_spatial(w, Y)
         dx = Y[:, -1] - Y[:, 0]
         dy = wY[:, -1] - wY[:, 0]
-        self.wY = wY
-        self.Y = Y
         r = np.sqrt(dx * dx + dy * dy)
         theta = np.arctan2(dy, dx)
         neg = theta < 0.0
-- 
2.43.0


From 5cbbe6a24a4abf97ab72c35ca31fc253ce524e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:52 +0000
Subject: [PATCH 10/34] fix: accept the documented alternative two-sided in
 Rose.permute

---
 giddy/directional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/directional.py b/giddy/directional.py
index 6da4cc2..feb5eef 100644
--- a/giddy/directional.py
+++ b/giddy/directional.py
@@ -277,7 +277,7 @@ class Rose:
         # depending on the problem at hand.
 
         alt = alternative.upper()
-        if alt == "TWO.SIDED":
+        if alt in ("TWO.SIDED", "TWO-SIDED"):
             P = (self.larger_perm + 1) / (permutations + 1.0)
             mask = P < 0.5
             self.p = mask * 2 * P + (1 - mask) * 2 * (1 - P)
-- 
2.43.0


From ad5893551ce94a0bcc6275c6df736ae1512ac023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:36 +0000
Subject: [PATCH 11/34] fix: use every lag class in the permuted x2 of
 Spatial_Markov

---
 giddy/markov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index c35cb18..0fd5f89 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -842,7 +842,7 @@ class Spatial_Markov:
             x2_realizations = np.zeros((permutations, 1))
             for perm in range(permutations):
                 T, P = self._calc(nrp(y), w)
-                x2 = [chi2(T[i], self.transitions)[0] for i in range(self.k)]
+                x2 = [chi2(T[i], self.transitions)[0] for i in range(self.m)]
                 x2s = sum(x2)
                 x2_realizations[perm] = x2s
                 if x2s >= self.x2:
-- 
2.43.0


From 47e2a60c98bc7504e070dc32b9c29335ac4b8360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:36 +0000
Subject: [PATCH 12/34] fix: keep the observed lag classes when Spatial_Markov
 is permuted

---
 giddy/markov.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/giddy/markov.py b/giddy/markov.py
index 0fd5f89..6989905 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -840,6 +840,7 @@ class Spatial_Markov:
             nrp = np.random.permutation
             counter = 0
             x2_realizations = np.zeros((permutations, 1))
+            lclass_ids = self.lclass_ids
             for perm in range(permutations):
                 T, P = self._calc(nrp(y), w)
                 x2 = [chi2(T[i], self.transitions)[0] for i in range(self.m)]
@@ -847,6 +848,7 @@ class Spatial_Markov:
                 x2_realizations[perm] = x2s
                 if x2s >= self.x2:
                     counter += 1
+            self.lclass_ids = lclass_ids
             self.x2_rpvalue = (counter + 1.0) / (permutations + 1.0)
             self.x2_realizations = x2_realizations
 
-- 
2.43.0


From 7464da29a63bfcdee505cd59f110d2dcd8430fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:36 +0000
Subject: [PATCH 13/34] fix: permute the lags of discrete data in
 Spatial_Markov

---
 giddy/markov.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index 6989905..ea43b24 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -823,6 +823,7 @@ class Spatial_Markov:
                 y_int.append(list(map(label_dict.get, yi)))
             self.class_ids = np.array(y_int)
             self.lclass_ids = self.class_ids
+            y = self.class_ids
         else:
             self.class_ids, self.cutoffs, self.k = self._maybe_classify(
                 y, k=k, cutoffs=self.cutoffs
@@ -958,7 +959,7 @@ class Spatial_Markov:
 
         """
         if self.discrete:
-            self.lclass_ids = weights.lag_categorical(w, self.class_ids, ties="tryself")
+            self.lclass_ids = weights.lag_categorical(w, y, ties="tryself")
         else:
             ly = weights.lag_spatial(w, y)
             self.lclass_ids, self.lag_cutoffs, self.m = self._maybe_classify(
-- 
2.43.0


From d477c1fe728d4c75bfb565d694cf48eb9aad220c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:37 +0000
Subject: [PATCH 14/34] fix: name every lag class in the summary of
 Spatial_Markov

---
 giddy/markov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index ea43b24..0f1c6bb 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -1045,7 +1045,7 @@ class Spatial_Markov:
         """
 
         class_names = ["C%d" % i for i in range(self.k)]
-        regime_names = ["LAG%d" % i for i in range(self.k)]
+        regime_names = ["LAG%d" % i for i in range(self.m)]
         ht = homogeneity(self.T, class_names=class_names, regime_names=regime_names)
         title = "Spatial Markov Test"
         if self.variable_name:
-- 
2.43.0


From 518963d6ca0da760a8ea2537fa70de97c467670c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:37 +0000
Subject: [PATCH 15/34] fix: count no degrees of freedom for rows without
 transitions

---
 giddy/markov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index 0f1c6bb..293d5db 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -1824,7 +1824,7 @@ class Homogeneity_Results:
         # b_i is the number of regimes that have non-zero observations in row i
         # A_i is the number of non-zero elements in row i of the aggregated
         # transition matrix
-        self.dof = int(((b_i - 1) * (A_i - 1)).sum())
+        self.dof = int(((b_i - 1) * (A_i - 1))[A_i > 0].sum())
         self.Q = Q
         self.Q_p_value = 1 - stats.chi2.cdf(self.Q, self.dof)
         self.LR = LR * 2.0
-- 
2.43.0


From 4a320c77d50ec3da9a86f1964089acd5e008dbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:37 +0000
Subject: [PATCH 16/34] fix: do not add a name to the numpy namespace in Theta

---
 giddy/rank.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/giddy/rank.py b/giddy/rank.py
index 2141baf..e8efd44 100644
--- a/giddy/rank.py
+++ b/giddy/rank.py
@@ -103,8 +103,8 @@ class Theta:
         self.theta = self._calc(regime)
         self.permutations = permutations
         if permutations:
-            np.perm = np.random.permutation
-            sim = np.array([self._calc(np.perm(regime)) for i in range(permutations)])
+            perm = np.random.permutation
+            sim = np.array([self._calc(perm(regime)) for i in range(permutations)])
             self.theta.shape = (1, len(self.theta))
             sim = np.concatenate((self.theta, sim))
             self.sim = sim
-- 
2.43.0


From 2931d85f763ff11f88b2eb5c2ab21e768904cead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:37 +0000
Subject: [PATCH 17/34] fix: keep the type of x in the permutations of
 Tau_Local_Neighbor

---
 giddy/rank.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/rank.py b/giddy/rank.py
index e8efd44..150f269 100644
--- a/giddy/rank.py
+++ b/giddy/rank.py
@@ -611,7 +611,7 @@ class Tau_Local_Neighbor:
             for i in range(self.n):
                 obs_i = self.tau_ln[i]  # observed value i LIMA statistic
                 yr = np.zeros_like(y)
-                xr = np.zeros_like(y)
+                xr = np.zeros_like(x)
                 rids = np.arange(self.n)
                 rids = np.delete(rids, i)
                 for j in range(permutations):
-- 
2.43.0


From 3c6978247f2b5735db92e06a0855c2bd25947b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:37 +0000
Subject: [PATCH 18/34] fix: no recursion limit for the connected components of
 a graph

---
 giddy/components.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/giddy/components.py b/giddy/components.py
index 065f45f..a65125d 100644
--- a/giddy/components.py
+++ b/giddy/components.py
@@ -147,16 +147,17 @@ class Graph:
             return components
 
     def dfs(self, v, visited, threshold, op=lt, first=None):
-        aux = [v]
-        visited.add(v)
-        if first is None:
-            first = v
-        for i in (
-            n
-            for n, w in list(self.edges.get(v, {}).items())
-            if op(w, threshold) and n not in visited
-        ):
-            x, y = self.dfs(i, visited, threshold, op, first)
-            aux.extend(x)
-            visited = visited.union(y)
+        aux = []
+        stack = [v]
+        while stack:
+            node = stack.pop()
+            if node in visited:
+                continue
+            visited.add(node)
+            aux.append(node)
+            stack.extend(
+                n
+                for n, w in self.edges.get(node, {}).items()
+                if op(w, threshold) and n not in visited
+            )
         return aux, visited
-- 
2.43.0


From bbf545222fda32a6faeb7775ab04252d7442616f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:57 +0000
Subject: [PATCH 19/34] fix: do not change the weights passed to the rank
 methods

---
 giddy/rank.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/giddy/rank.py b/giddy/rank.py
index 150f269..3fb1676 100644
--- a/giddy/rank.py
+++ b/giddy/rank.py
@@ -351,7 +351,6 @@ class SpatialTau:
     """
 
     def __init__(self, x, y, w, permutations=0):
-        w.transform = "b"
         self.n = len(x)
         res = Tau(x, y)
         self.tau = res.tau
@@ -362,7 +361,7 @@ class SpatialTau:
         self.extraY = res.extraY
         res = self._calc(x, y, w)
         self.tau_spatial = res[0]
-        self.pairs_spatial = int(w.s0 / 2.0)
+        self.pairs_spatial = int(sum(w.cardinalities.values()) / 2.0)
         self.concordant_spatial = res[1]
         self.discordant_spatial = res[2]
 
@@ -598,7 +597,6 @@ class Tau_Local_Neighbor:
         y = np.asarray(y)
         self.n = len(x)
 
-        w.transform = "b"
         self.tau_ln, self.tau_ln_weights = self._calc(x, y, w)
 
         concor_sign = np.ones(self.n)
@@ -651,12 +649,13 @@ class Tau_Local_Neighbor:
         else:
             tau_ln = np.zeros(self.n)
             tau_ln_weights = np.zeros(self.n)
+            s0 = sum(w.cardinalities.values())
             for i in w.id_order:
                 iS_local = 0
                 for j in w.neighbors[i]:
                     iS_local += self._calc_r(x[i], y[i], x[j], y[j], w)
                 tau_ln[i] = iS_local * 1.0 / w.cardinalities[i]
-                tau_ln_weights[i] = w.cardinalities[i] * 1.0 / w.s0
+                tau_ln_weights[i] = w.cardinalities[i] * 1.0 / s0
             return tau_ln, tau_ln_weights
 
 
@@ -755,7 +754,6 @@ class Tau_Local_Neighborhood:
         self.S = res.S
         self.tau_local = res.tau_local
 
-        w.transform = "b"
         tau_lnhood = np.zeros(self.n)
         for i in range(self.n):
             neighbors_i = [i]
-- 
2.43.0


From 8cf8607703e970abc9c1fd9a8b038fafbb8423da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:57 +0000
Subject: [PATCH 20/34] fix: give back the weights as they were after a
 Moran_Local

---
 giddy/markov.py   | 2 ++
 giddy/plotting.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/giddy/markov.py b/giddy/markov.py
index 293d5db..dbff863 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -1378,6 +1378,7 @@ class LISA_Markov(Markov):
         self, y, w, permutations=0, significance_level=0.05, geoda_quads=False
     ):
         y = y.transpose()
+        transform = w.transform
         pml = Moran_Local
         gq = geoda_quads
         ml = [pml(yi, w, permutations=permutations, geoda_quads=gq) for yi in y]
@@ -1416,6 +1417,7 @@ class LISA_Markov(Markov):
         ybar = y.mean(axis=0)
         r = y / ybar
         ylag = np.array([weights.lag_spatial(w, yt) for yt in y])
+        w.transform = transform  # changed by Moran_Local
         rlag = ylag / ybar
         rc = r < 1.0
         rlagc = rlag < 1.0
diff --git a/giddy/plotting.py b/giddy/plotting.py
index e06bfc5..6dc71e9 100644
--- a/giddy/plotting.py
+++ b/giddy/plotting.py
@@ -62,10 +62,12 @@ def _moran_loc_from_rose_calc(rose):
     Calculate esda.moran.Moran_Local values from giddy.rose object
     """
     old_state = np.random.get_state()
+    old_transform = rose.w.transform
     moran_locy = Moran_Local(rose.Y[:, 0], rose.w)
     np.random.set_state(old_state)
     moran_locx = Moran_Local(rose.Y[:, 1], rose.w)
     np.random.set_state(old_state)
+    rose.w.transform = old_transform  # changed by Moran_Local
     return moran_locy, moran_locx
 
 
-- 
2.43.0


From eb1078aad69ed337cdc19e2984937a34b7ae93d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:39 +0000
Subject: [PATCH 21/34] fix: steady states of conditional chains of different
 shapes

---
 giddy/markov.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index dbff863..bfaedb2 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -865,8 +865,12 @@ class Spatial_Markov:
             _S = []
             for p in self.P:
                 _S.append(steady_state(p))
-            # if np.array(_S).dtype is np.dtype('O'):
-            self._S = np.asarray(_S, dtype=object)
+            if len({s.shape for s in _S}) == 1:
+                self._S = np.asarray(_S, dtype=object)
+            else:
+                self._S = np.empty(len(_S), dtype=object)
+                for i, s in enumerate(_S):
+                    self._S[i] = s
         return self._S
 
     @property
-- 
2.43.0


From a730041c503ed8fb7f74dbb297e99687cbfcc765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:39 +0000
Subject: [PATCH 22/34] fix: LISA Markov when all values lie on one side of the
 mean

---
 giddy/markov.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index bfaedb2..ac4f90e 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -1425,8 +1425,9 @@ class LISA_Markov(Markov):
         rlag = ylag / ybar
         rc = r < 1.0
         rlagc = rlag < 1.0
-        markov_y = Markov(rc, summary=False)
-        markov_ylag = Markov(rlagc, summary=False)
+        sides = np.array([False, True])  # no guarantee both sides are visited
+        markov_y = Markov(rc, sides, summary=False)
+        markov_ylag = Markov(rlagc, sides, summary=False)
         A = np.array([[1, 0, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1], [0, 1, 0, 0]])
 
         kp = A.dot(np.kron(markov_y.p, markov_ylag.p)).dot(A.T)
-- 
2.43.0


From 720a2cc4e1a55802c3f3fabf1284fd2b0773bdcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:39 +0000
Subject: [PATCH 23/34] fix: expected transitions of a LISA Markov with the
 quadrants of GeoDa

---
 giddy/markov.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/giddy/markov.py b/giddy/markov.py
index ac4f90e..23d45eb 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -1429,6 +1429,8 @@ class LISA_Markov(Markov):
         markov_y = Markov(rc, sides, summary=False)
         markov_ylag = Markov(rlagc, sides, summary=False)
         A = np.array([[1, 0, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1], [0, 1, 0, 0]])
+        if geoda_quads:  # HH, LL, LH, HL
+            A = A[[0, 2, 1, 3]]
 
         kp = A.dot(np.kron(markov_y.p, markov_ylag.p)).dot(A.T)
         trans = self.transitions.sum(axis=1)
-- 
2.43.0


From 85b1ff10f1585a483e24e3e3e53795f8fc900607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:39 +0000
Subject: [PATCH 24/34] fix: components of the last period in
 LISA_Markov.spillover

---
 giddy/markov.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/giddy/markov.py b/giddy/markov.py
index 23d45eb..d959da2 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -1555,6 +1555,11 @@ class LISA_Markov(Markov):
                     for i in component:
                         ii = self.w.id2i[i]
                         components[ii, t] = c + 1
+                if t == k - 2:
+                    for c, component in enumerate(components2):
+                        for i in component:
+                            ii = self.w.id2i[i]
+                            components[ii, k - 1] = c + 1
             results = {}
             results["components"] = components
             results["spill_over"] = spill_over
-- 
2.43.0


From e83cf4020b9ebf7960d1fcd3e9ab8a3641910ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:39 +0000
Subject: [PATCH 25/34] fix: tick labels in the order of the data of the
 dynamic LISA heatmap

---
 giddy/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/giddy/plotting.py b/giddy/plotting.py
index 6dc71e9..4c6b7df 100644
--- a/giddy/plotting.py
+++ b/giddy/plotting.py
@@ -169,8 +169,8 @@ def _dynamic_lisa_heatmap(moran_locy, moran_locx, p, ax, **kwargs):
     square = kwargs.pop("square", True)
 
     # set name for tick labels
-    xticklabels = kwargs.pop("xticklabels", ["ns", "HH", "HL", "LH", "LL"])
-    yticklabels = kwargs.pop("yticklabels", ["ns", "HH", "HL", "LH", "LL"])
+    xticklabels = kwargs.pop("xticklabels", ["ns", "HH", "LH", "LL", "HL"])
+    yticklabels = kwargs.pop("yticklabels", ["ns", "HH", "LH", "LL", "HL"])
 
     ax = sns.heatmap(
         heatmap_data,
-- 
2.43.0


From fa6b36caa75ba72e81ca536b355292a9b7072263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:39 +0000
Subject: [PATCH 26/34] fix: leave the style alone when dynamic_lisa_rose
 raises an error

---
 giddy/plotting.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/giddy/plotting.py b/giddy/plotting.py
index 4c6b7df..ab9d206 100644
--- a/giddy/plotting.py
+++ b/giddy/plotting.py
@@ -268,6 +268,11 @@ def dynamic_lisa_rose(rose, attribute=None, ax=None, **kwargs):
     >>> plt.show()
 
     """
+    if attribute is not None and ("c" in kwargs or "color" in kwargs):
+        raise ValueError(
+            "c and color are not valid keywords here; attribute is used for coloring"
+        )
+
     # save_old default values
     old_gridcolor = mpl.rcParams["grid.color"]
     old_facecolor = mpl.rcParams["axes.facecolor"]
@@ -292,12 +297,6 @@ def dynamic_lisa_rose(rose, attribute=None, ax=None, **kwargs):
     if attribute is None:
         c = ax.scatter(rose.theta, rose.r, alpha=alpha, cmap=cmap, **kwargs)
     else:
-        if "c" in kwargs or "color" in kwargs:
-            raise ValueError(
-                "c and color are not valid keywords here; "
-                "attribute is used for coloring"
-            )
-
         c = ax.scatter(
             rose.theta, rose.r, c=attribute, alpha=alpha, cmap=cmap, **kwargs
         )
-- 
2.43.0


From 8ec7e235f940fd20af3e39d7d99dabba8e69d4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:48 +0000
Subject: [PATCH 27/34] fix: homogeneity tests of integer transition matrices

The conditional probabilities were truncated to integers.
---
 giddy/markov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index d959da2..7c9ae57 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -1795,7 +1795,7 @@ class Homogeneity_Results:
 
     def _homogeneity(self, transition_matrices):
         # form null transition probability matrix
-        M = np.array(transition_matrices)
+        M = np.array(transition_matrices, dtype=float)
         m, r, k = M.shape
         self.k = k
         B = np.zeros((r, m))
-- 
2.43.0


From 6a01d84fd414bd3d804aed4963a660f11643b6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:48 +0000
Subject: [PATCH 28/34] fix: concordance of pairs by comparison

The product of the differences overflows for integers (and wraps around for
unsigned ones) and underflows to a tie for small floats.
---
 giddy/rank.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/giddy/rank.py b/giddy/rank.py
index 3fb1676..c92d4b3 100644
--- a/giddy/rank.py
+++ b/giddy/rank.py
@@ -385,8 +385,8 @@ class SpatialTau:
                     ijs[(i, j)] = (i, j)
                     xj = x[j]
                     yj = y[j]
-                    dx = xi - xj
-                    dy = yi - yj
+                    dx = int(xi > xj) - int(xi < xj)
+                    dy = int(yi > yj) - int(yi < yj)
                     dxdy = dx * dy
                     if dxdy != 0:
                         n1 += 1
@@ -482,7 +482,9 @@ class Tau_Local:
         xx = x.reshape(self.n, 1)
         yy = y.reshape(self.n, 1)
 
-        C = (xx - xx.T) * (yy - yy.T)
+        dx = 1 * (xx > xx.T) - 1 * (xx < xx.T)
+        dy = 1 * (yy > yy.T) - 1 * (yy < yy.T)
+        C = dx * dy
         self.S = -1 * (C < 0) + 1 * (C > 0)
 
         self.tau = self.S.sum() * 1.0 / (self.n * (self.n - 1))
@@ -628,8 +630,8 @@ class Tau_Local_Neighbor:
             self.tau_ln_pvalues = tau_ln_pvalues
 
     def _calc_r(self, xi, yi, xj, yj, w):
-        dx = xi - xj
-        dy = yi - yj
+        dx = int(xi > xj) - int(xi < xj)
+        dy = int(yi > yj) - int(yi < yj)
         dxdy = dx * dy
         if dxdy != 0:
             if dxdy > 0.0:
-- 
2.43.0


From bd6110dac938b6fc7039fce95567278930f45084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:48 +0000
Subject: [PATCH 29/34] fix: LISA vectors of unsigned integer data

---
 giddy/directional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/directional.py b/giddy/directional.py
index feb5eef..27062ba 100644
--- a/giddy/directional.py
+++ b/giddy/directional.py
@@ -304,7 +304,7 @@ class Rose:
 
     def _calc(self, Y, w, k):
         wY = weights.lag_spatial(w, Y)
-        dx = Y[:, -1] - Y[:, 0]
+        dx = np.subtract(Y[:, -1], Y[:, 0], dtype=float)
         dy = wY[:, -1] - wY[:, 0]
         r = np.sqrt(dx * dx + dy * dy)
         theta = np.arctan2(dy, dx)
-- 
2.43.0


From e9b718bcf8e730794348d52528553494183c90fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:02 +0000
Subject: [PATCH 30/34] fix: unconditional transitions of a Spatial_Markov with
 classes never visited

---
 giddy/markov.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index 7c9ae57..1075aa0 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -831,7 +831,10 @@ class Spatial_Markov:
             self.classes = np.arange(self.k)
 
         classic = Markov(
-            self.class_ids, fill_empty_classes=fill_empty_classes, summary=False
+            self.class_ids,
+            classes=np.arange(self.k),
+            fill_empty_classes=fill_empty_classes,
+            summary=False,
         )
         self.p = classic.p
         self.transitions = classic.transitions
-- 
2.43.0


From 0899b357f0eb30860a9d764c64ebf5849c08c670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:33 +0000
Subject: [PATCH 31/34] fix: row totals of the strata in kullback

---
 giddy/markov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index 1075aa0..c0eecc6 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -1647,7 +1647,7 @@ def kullback(F):
     FdJd1 = FdJd + (FdJd == 0)
     T3 = 2 * (FdJd * np.log(FdJd1)).sum()
 
-    FIJd = F[:, :].sum(axis=1)
+    FIJd = F.sum(axis=2)
     FIJd1 = FIJd + (FIJd == 0)
     T4 = 2 * (FIJd * np.log(FIJd1)).sum()
 
-- 
2.43.0


From e859caf18fd991d787ecb6de551e0f36f0321972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:17:46 +0000
Subject: [PATCH 32/34] fix: rose plots set the style back also when they fail

---
 giddy/plotting.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/giddy/plotting.py b/giddy/plotting.py
index ab9d206..94e9203 100644
--- a/giddy/plotting.py
+++ b/giddy/plotting.py
@@ -190,6 +190,7 @@ def _dynamic_lisa_heatmap(moran_locy, moran_locx, p, ax, **kwargs):
     return fig, ax
 
 
+@mpl.rc_context()  # sets the style back also when plotting fails
 def dynamic_lisa_rose(rose, attribute=None, ax=None, **kwargs):
     """
     Plot dynamic LISA values in a rose diagram.
-- 
2.43.0


From dbba75c99f3608fc8154568e617c74dce4cab23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:06 +0000
Subject: [PATCH 33/34] fix: plots of roses of longer panels show the last
 period as the end

---
 giddy/plotting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/giddy/plotting.py b/giddy/plotting.py
index 94e9203..41ffac2 100644
--- a/giddy/plotting.py
+++ b/giddy/plotting.py
@@ -65,7 +65,7 @@ def _moran_loc_from_rose_calc(rose):
     old_transform = rose.w.transform
     moran_locy = Moran_Local(rose.Y[:, 0], rose.w)
     np.random.set_state(old_state)
-    moran_locx = Moran_Local(rose.Y[:, 1], rose.w)
+    moran_locx = Moran_Local(rose.Y[:, -1], rose.w)
     np.random.set_state(old_state)
     rose.w.transform = old_transform  # changed by Moran_Local
     return moran_locy, moran_locx
@@ -442,8 +442,8 @@ def dynamic_lisa_vectors(rose, ax=None, arrows=True, **kwargs):
     ys = []
     for i in range(len(rose.Y)):
         # Plot a vector from xy_start to xy_end
-        xs.append(rose.Y[i, :])
-        ys.append(rose.wY[i, :])
+        xs.append(rose.Y[i, [0, -1]])
+        ys.append(rose.wY[i, [0, -1]])
 
     xs = np.asarray(xs).T
     ys = np.asarray(ys).T
-- 
2.43.0


From 19c55ed91f2d26fa5cd6e0dd4895e99560221304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:55 +0000
Subject: [PATCH 34/34] fix: homogeneity summaries with given title, labels
 that are no strings, and more rows than columns

---
 giddy/markov.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index c0eecc6..c75e4b6 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -1856,13 +1856,13 @@ class Homogeneity_Results:
         self.p_h0 = p_ij
         self.p_h1 = p_ijm
 
-    def summary(self, file_name=None, title="Markov Homogeneity Test"):
+    def summary(self, file_name=None, title=None):
+        title = self.title if title is None else title
         regime_names = ["%d" % i for i in range(self.m)]
-        if self.regime_names:
-            regime_names = self.regime_names
+        if len(self.regime_names):
+            regime_names = [str(regime) for regime in self.regime_names]
         cols = ["P(%s)" % str(regime) for regime in regime_names]
-        if not self.class_names:
-            self.class_names = list(range(self.k))
+        class_names = list(self.class_names) or list(range(max(self.p_h0.shape)))
 
         max_col = max([len(col) for col in cols])
         col_width = max([5, max_col])  # probabilities have 5 chars
@@ -1893,21 +1893,19 @@ class Homogeneity_Results:
         print(lead)
 
         cols = ["P(%s)" % str(regime) for regime in self.regime_names]
-        if not self.class_names:
-            self.class_names = list(range(self.k))
-        cols.extend(["%s" % str(cname) for cname in self.class_names])
+        cols.extend(["%s" % str(cname) for cname in class_names])
 
         max_col = max([len(col) for col in cols])
         col_width = max([5, max_col])  # probabilities have 5 chars
         p0 = []
         line0 = ["{s: <{w}}".format(s="P(H0)", w=col_width)]
         line0.extend(
-            ["{s: >{w}}".format(s=cname, w=col_width) for cname in self.class_names]
+            ["%*s" % (col_width, cname) for cname in class_names[: self.k]]
         )
         print("    ".join(line0))
         p0.append("&".join(line0))
         for i, row in enumerate(self.p_h0):
-            line = ["%*s" % (col_width, str(self.class_names[i]))]
+            line = ["%*s" % (col_width, str(class_names[i]))]
             line.extend(["%*.3f" % (col_width, v) for v in row])
             print("    ".join(line))
             p0.append("&".join(line))
@@ -1918,12 +1916,12 @@ class Homogeneity_Results:
             p0 = []
             line0 = ["{s: <{w}}".format(s="P(%s)" % regime_names[r], w=col_width)]
             line0.extend(
-                ["{s: >{w}}".format(s=cname, w=col_width) for cname in self.class_names]
+                ["%*s" % (col_width, cname) for cname in class_names[: self.k]]
             )
             print("    ".join(line0))
             p0.append("&".join(line0))
             for i, row in enumerate(p1):
-                line = ["%*s" % (col_width, str(self.class_names[i]))]
+                line = ["%*s" % (col_width, str(class_names[i]))]
                 line.extend(["%*.3f" % (col_width, v) for v in row])
                 print("    ".join(line))
                 p0.append("&".join(line))
-- 
2.43.0

