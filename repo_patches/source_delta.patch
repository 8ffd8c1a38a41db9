From 88bfd046cb7f38b44544f16589a7e13ec6eb5b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:13 +0000
Subject: [PATCH 01/79] fix: multiply the existing values in CMemory.multiply_
 when no mask is given

Without a mask, the given values were added instead of being multiplied.
---
 src/evotorch/tools/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/tools/structures.py b/src/evotorch/tools/structures.py
index 21d81fe..9052ec4 100644
--- a/src/evotorch/tools/structures.py
+++ b/src/evotorch/tools/structures.py
@@ -656,7 +656,7 @@ class CMemory:
             if self._is_dtype_bool:
                 self._data[address] &= value
             else:
-                self._data[address] += value
+                self._data[address] *= value
         else:
             if self._is_dtype_bool:
                 self._data[address] &= do_where(
-- 
2.43.0


From 88556555c1e3f20cf4c15b301c037acc516925fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:13 +0000
Subject: [PATCH 02/79] fix: ignore masked-out keys in the masked operations of
 CMemory

The key of a masked-out batch item was still used for addressing, and a
tuple key shared by all batch items was rejected when a mask was given.
---
 src/evotorch/tools/structures.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/evotorch/tools/structures.py b/src/evotorch/tools/structures.py
index 9052ec4..baf3c6b 100644
--- a/src/evotorch/tools/structures.py
+++ b/src/evotorch/tools/structures.py
@@ -452,13 +452,11 @@ class CMemory:
             result = key.expand(expected_shape)
         else:
             raise RuntimeError(f"The key tensor has an incompatible shape: {key.shape}")
-        if where is not None:
-            min_key = (
-                torch.tensor(0, dtype=torch.int64, device=self._data.device) if self._min_key is None else self._min_key
-            )
-            key = do_where(where, key, min_key.expand(expected_shape))
         if self._verify:
-            self._key_must_be_valid(key)
+            if where is not None:
+                # The keys which are masked out are replaced by a valid key, since they are not to be used
+                result = do_where(where, result, self._min_key.expand(expected_shape))
+            self._key_must_be_valid(result)
 
         return result
 
-- 
2.43.0


From 30d03076173ed859788508455aee055194b59809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:13 +0000
Subject: [PATCH 03/79] fix: start CDict with no existing keys

The memory which marks the existing keys was left uninitialized.
---
 src/evotorch/tools/structures.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/evotorch/tools/structures.py b/src/evotorch/tools/structures.py
index baf3c6b..fe6bf24 100644
--- a/src/evotorch/tools/structures.py
+++ b/src/evotorch/tools/structures.py
@@ -1200,6 +1200,7 @@ class CDict(Structure):
             dtype=torch.bool,
             device=device,
             verify=verify,
+            fill_with=False,
         )
 
     def get(self, key: Numbers, default: Optional[Numbers] = None) -> torch.Tensor:
-- 
2.43.0


From edf16aeb092dc5d99486858d17ffaf9866b84127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:13 +0000
Subject: [PATCH 04/79] fix: make the masked clear methods of CDict and CList
 work

They referred to a non-existing attribute of the underlying memory.
---
 src/evotorch/tools/structures.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/tools/structures.py b/src/evotorch/tools/structures.py
index fe6bf24..964635b 100644
--- a/src/evotorch/tools/structures.py
+++ b/src/evotorch/tools/structures.py
@@ -1361,7 +1361,9 @@ class CDict(Structure):
             self._exist.data[:] = False
         else:
             where = self._get_where(where)
-            all_false = torch.tensor(False, dtype=torch.bool, device=self._exist.device).expand(self._exist.shape)
+            all_false = torch.tensor(False, dtype=torch.bool, device=self._exist.device).expand(
+                self._exist.data.shape
+            )
             self._exist.data[:] = do_where(where, all_false, self._exist.data[:])
 
     @property
@@ -1989,7 +1991,9 @@ class CList(Structure):
             self._end.data[:] = -1
         else:
             where = self._get_where(where)
-            all_minus_ones = torch.tensor(-1, dtype=torch.int64, device=self._begin.device).expand(self._begin.shape)
+            all_minus_ones = torch.tensor(-1, dtype=torch.int64, device=self._begin.device).expand(
+                self._begin.data.shape
+            )
             self._begin.data[:] = do_where(where, all_minus_ones, self._begin.data)
             self._end.data[:] = do_where(where, all_minus_ones, self._end.data)
 
-- 
2.43.0


From 3c43b6f12b7562b0dc57860bfbe4887af7d8d236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:13 +0000
Subject: [PATCH 05/79] fix: make is_batched work on CDict, CList, and CBag

---
 src/evotorch/tools/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/tools/structures.py b/src/evotorch/tools/structures.py
index 964635b..5e6fc84 100644
--- a/src/evotorch/tools/structures.py
+++ b/src/evotorch/tools/structures.py
@@ -831,7 +831,7 @@ class Structure:
         """
         True if this structure is batched; False otherwise.
         """
-        return self._batch_ndim > 0
+        return self.batch_ndim > 0
 
     @property
     def dtype(self) -> torch.dtype:
-- 
2.43.0


From bb83c6ea6387c9b267cbae1279b447931b2e9c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:13 +0000
Subject: [PATCH 06/79] fix: do not treat an empty CList of maximum length 1 as
 full

---
 src/evotorch/tools/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/tools/structures.py b/src/evotorch/tools/structures.py
index 5e6fc84..d6cd640 100644
--- a/src/evotorch/tools/structures.py
+++ b/src/evotorch/tools/structures.py
@@ -1640,7 +1640,7 @@ class CList(Structure):
     def _is_full(self) -> torch.Tensor:
         begin = self._begin[self._all_zeros]
         end = self._end[self._all_zeros]
-        return ((end - begin) % self._max_length) == (self._max_length - 1)
+        return (begin >= 0) & (((end - begin) % self._max_length) == (self._max_length - 1))
 
     @staticmethod
     def _considering_where(other_mask: torch.Tensor, where: Optional[torch.Tensor]) -> torch.Tensor:
-- 
2.43.0


From da2c0ba16a8087e23b7ace969316efc4f14b6b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:13 +0000
Subject: [PATCH 07/79] fix: reject CList indices beyond the maximum length
 instead of wrapping them

Also, an out-of-range index of a masked-out batch item no longer fails.
---
 src/evotorch/tools/structures.py | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/src/evotorch/tools/structures.py b/src/evotorch/tools/structures.py
index d6cd640..ab5c1ad 100644
--- a/src/evotorch/tools/structures.py
+++ b/src/evotorch/tools/structures.py
@@ -1722,18 +1722,8 @@ class CList(Structure):
         )
         return valid
 
-    def _mod_underlying_key(self, underlying_key: torch.Tensor, *, verify: Optional[bool] = None) -> torch.Tensor:
-        verify = self._verify if verify is None else verify
-        if self._verify:
-            where_negative = underlying_key < 0
-            where_too_large = underlying_key >= self._max_length
-            underlying_key = underlying_key.clone()
-            underlying_key[where_negative] += self._max_length
-            underlying_key[where_too_large] -= self._max_length
-        else:
-            underlying_key = underlying_key % self._max_length
-
-        return underlying_key
+    def _mod_underlying_key(self, underlying_key: torch.Tensor) -> torch.Tensor:
+        return underlying_key % self._max_length
 
     def _get_underlying_key(
         self,
@@ -1750,10 +1740,12 @@ class CList(Structure):
         underlying_key_for_pos_index = self._begin[self._all_zeros] + key
         underlying_key_for_neg_index = self._end[self._all_zeros] + key + 1
         underlying_key = torch.where(key >= 0, underlying_key_for_pos_index, underlying_key_for_neg_index)
-        underlying_key = self._mod_underlying_key(underlying_key, verify=verify)
+        underlying_key = self._mod_underlying_key(underlying_key)
 
         if verify or return_validity:
-            valid = self._is_underlying_key_valid(underlying_key)
+            valid = (
+                self._is_underlying_key_valid(underlying_key) & (key >= -self._max_length) & (key < self._max_length)
+            )
         else:
             valid = None
 
-- 
2.43.0


From 6c6de55120deef575367aeeb0b4cea916ec63944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:13 +0000
Subject: [PATCH 08/79] fix: keep the contents of a CBag intact while shuffling

Values were corrupted when the lower bound of the value range was above 1
or when the noise overflowed a 16-bit dtype, and shuffling failed for a
bag without a batch dimension or with more than one batch dimension.
---
 src/evotorch/tools/structures.py | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/src/evotorch/tools/structures.py b/src/evotorch/tools/structures.py
index ab5c1ad..5cceb76 100644
--- a/src/evotorch/tools/structures.py
+++ b/src/evotorch/tools/structures.py
@@ -2373,10 +2373,7 @@ class CBag(Structure):
         self._choice_count = self._high_item - self._low_item
         self._bignum = self._choice_count + 1
 
-        if self._low_item < 1:
-            self._shift = 1 - self._low_item
-        else:
-            self._shift = 0
+        self._shift = 1 - self._low_item
 
         self._empty = self._low_item - 1
         self._data.data[:] = self._empty
@@ -2397,20 +2394,15 @@ class CBag(Structure):
         self._data.push_(value, where)
 
     def _shuffle(self):
-        dtype = self._data.dtype
         device = self._data.device
-        nrows, ncols = self._data.data.shape
 
-        try:
-            gaussian_noise = torch.randn(nrows, ncols, dtype=torch.float32, device=device, **(self._gen_kwargs))
-            noise = gaussian_noise.argsort().to(dtype=dtype) * self._bignum
-            self._data.data[:] += torch.where(
-                self._data.data != self._empty, self._shift + noise, torch.tensor(0, dtype=dtype, device=device)
-            )
-            self._data.data[:] = self._data.data.sort(dim=-1, descending=True, stable=False).values
-        finally:
-            self._data.data[:] %= self._bignum
-            self._data.data[:] -= self._shift
+        # The intermediate computations are done with int64, so that the noise cannot overflow a narrower dtype
+        data = self._data.data.to(dtype=torch.int64)
+        gaussian_noise = torch.randn(data.shape, dtype=torch.float32, device=device, **(self._gen_kwargs))
+        noise = gaussian_noise.argsort() * self._bignum
+        data = data + self._shift + torch.where(data != self._empty, noise, torch.zeros_like(noise))
+        data = data.sort(dim=-1, descending=True, stable=False).values
+        self._data.data[:] = (data % self._bignum) - self._shift
 
     def pop_(self, where: Optional[Numbers] = None) -> torch.Tensor:
         """
-- 
2.43.0


From 7b0f352f833177b1b92f889f1c2cd297fd67618e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:48:27 +0000
Subject: [PATCH 09/79] fix: let CMemory subtract and divide by values given as
 sequences

---
 src/evotorch/tools/structures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/tools/structures.py b/src/evotorch/tools/structures.py
index 5cceb76..cc1cd6b 100644
--- a/src/evotorch/tools/structures.py
+++ b/src/evotorch/tools/structures.py
@@ -675,7 +675,7 @@ class CMemory:
                 If a `where` mask is given, then modifications will happen only
                 on the memory slots whose corresponding mask values are True.
         """
-        self.add_(key, -value, where)
+        self.add_(key, -torch.as_tensor(value), where)
 
     def divide_(self, key: Numbers, value: Numbers, where: Optional[Numbers] = None):
         """
@@ -689,7 +689,7 @@ class CMemory:
                 If a `where` mask is given, then modifications will happen only
                 on the memory slots whose corresponding mask values are True.
         """
-        self.multiply_(key, 1 / value, where)
+        self.multiply_(key, 1 / torch.as_tensor(value), where)
 
     def __getitem__(self, key: Numbers) -> torch.Tensor:
         """
-- 
2.43.0


From 6ac58283d670ec049bfef7012bb444f9ac448819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:50 +0000
Subject: [PATCH 10/79] fix: address each batch item separately in a CMemory
 with multiple batch dimensions

---
 src/evotorch/tools/structures.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/evotorch/tools/structures.py b/src/evotorch/tools/structures.py
index cc1cd6b..e480977 100644
--- a/src/evotorch/tools/structures.py
+++ b/src/evotorch/tools/structures.py
@@ -418,7 +418,9 @@ class CMemory:
 
         self._for_all_batches = tuple(
             (
-                torch.arange(self._batch_shape[i], dtype=torch.int64, device=self._device)
+                torch.arange(self._batch_shape[i], dtype=torch.int64, device=self._device).reshape(
+                    (-1,) + ((1,) * (self._batch_ndim - i - 1))
+                )
                 for i in range(self._batch_ndim)
             )
         )
-- 
2.43.0


From 4557b281787f17868d4b73ccb97e2a28d7c51a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:47:25 +0000
Subject: [PATCH 11/79] fix: compute crowding ranks instead of sorting indices
 in _compute_pareto_ranks

The sorting indices were stored where ranks were expected, so take_best
of a multi-objective batch did not prefer the least crowded solutions.
---
 src/evotorch/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/core.py b/src/evotorch/core.py
index e2b4324..fbe9b08 100644
--- a/src/evotorch/core.py
+++ b/src/evotorch/core.py
@@ -3527,7 +3527,7 @@ def _compute_pareto_ranks(utils: torch.Tensor, crowdsort: bool) -> Tuple[torch.T
         if crowdsort:
             crowdsort_distances = _crowding_distance_assignment(utils[new_non_dominated])
             # Note the descending sort -- we want to maximize distances
-            crowdsort_ranks[new_non_dominated] = torch.argsort(crowdsort_distances, descending=True)
+            crowdsort_ranks[new_non_dominated] = torch.argsort(torch.argsort(crowdsort_distances, descending=True))
 
         # Update the number of dominations for remaining solutions by removing any domination counts introduce by the solutions we just sorted
         n_dominations += -dominated_matrix[:, new_non_dominated].sum(dim=-1)
@@ -3564,7 +3564,7 @@ def _pareto_sort(utils: torch.Tensor, crowdsort: bool) -> Tuple[List[torch.Tenso
         # Sort according to crowdsort_ranks if crowdsort
         if crowdsort:
             front_crowdsort_ranks = crowdsort_ranks[front]
-            front = front[front_crowdsort_ranks]
+            front = front[torch.argsort(front_crowdsort_ranks)]
 
         fronts.append(front)
     return fronts, ranks
-- 
2.43.0


From 6e8bcd6820a90b3e44ff592c8201858408c3791c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:47:25 +0000
Subject: [PATCH 12/79] fix: reject an objective index equal to the number of
 objectives

---
 src/evotorch/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/core.py b/src/evotorch/core.py
index fbe9b08..653ad75 100644
--- a/src/evotorch/core.py
+++ b/src/evotorch/core.py
@@ -3790,7 +3790,7 @@ class SolutionBatch(Serializable):
         if i < 0:
             i = self._num_objs + i
 
-        if (i < 0) or (i > (self._num_objs)):
+        if (i < 0) or (i > (self._num_objs - 1)):
             raise IndexError(f"Invalid objective index: {org_i}")
 
         return i
-- 
2.43.0


From 77a99f287655117bdd328ee2df13b3415a24bb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:47:25 +0000
Subject: [PATCH 13/79] fix: reject a solution index equal to the length of the
 batch

---
 src/evotorch/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/core.py b/src/evotorch/core.py
index 653ad75..b1ef884 100644
--- a/src/evotorch/core.py
+++ b/src/evotorch/core.py
@@ -4759,7 +4759,7 @@ class Solution(Serializable):
         index = int(index)
         if index < 0:
             index = len(parent) + index
-        if not ((index >= 0) and (index <= len(parent))):
+        if not ((index >= 0) and (index < len(parent))):
             raise IndexError(f"Invalid index: {index}")
         self._batch: SolutionBatch = parent[index : index + 1]
 
-- 
2.43.0


From 1864e379ea91921b4b57e51b437d7fbc44ca5a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:47:42 +0000
Subject: [PATCH 14/79] fix: track the best and the worst solutions also if
 their fitnesses are infinite

Evaluating a first batch whose fitnesses are all infinite failed.
---
 src/evotorch/core.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/core.py b/src/evotorch/core.py
index b1ef884..54382ce 100644
--- a/src/evotorch/core.py
+++ b/src/evotorch/core.py
@@ -2377,10 +2377,14 @@ class Problem(TensorMakerMixin, Serializable):
             scores = batch.access_evals(i_obj)
             best_score = scores[best_sln_index]
             worst_score = scores[worst_sln_index]
-            if first_is_better(best_score, self._best_evals[i_obj], i_obj):
+            if first_is_better(best_score, self._best_evals[i_obj], i_obj) or (
+                (self._best[i_obj] is None) and (best_score == self._best_evals[i_obj])
+            ):
                 self._best_evals[i_obj] = best_score
                 self._best[i_obj] = batch[best_sln_index].clone()
-            if first_is_worse(worst_score, self._worst_evals[i_obj], i_obj):
+            if first_is_worse(worst_score, self._worst_evals[i_obj], i_obj) or (
+                (self._worst[i_obj] is None) and (worst_score == self._worst_evals[i_obj])
+            ):
                 self._worst_evals[i_obj] = worst_score
                 self._worst[i_obj] = batch[worst_sln_index].clone()
 
-- 
2.43.0


From 35f2106e21737f9f39f34434ff82423641488dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:47:42 +0000
Subject: [PATCH 15/79] fix: report the best and the worst multi-objective
 solutions as a snapshot

The status shared its lists with the problem, so an already obtained
status changed during later evaluations.
---
 src/evotorch/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/core.py b/src/evotorch/core.py
index 54382ce..4cc2712 100644
--- a/src/evotorch/core.py
+++ b/src/evotorch/core.py
@@ -2396,7 +2396,7 @@ class Problem(TensorMakerMixin, Serializable):
                 worst_eval=float(self._worst[0].evals[0]),
             )
         else:
-            return {"best": self._best, "worst": self._worst}
+            return {"best": list(self._best), "worst": list(self._worst)}
 
     def compare_solutions(self, a: "Solution", b: "Solution", obj_index: Optional[int] = None) -> float:
         """
-- 
2.43.0


From ee2836368d6615c90d9d198a84b00977086fbc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:57:04 +0000
Subject: [PATCH 16/79] fix: keep track of the best and the worst when some
 fitnesses are NaN

---
 src/evotorch/core.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/evotorch/core.py b/src/evotorch/core.py
index 4cc2712..8cbb490 100644
--- a/src/evotorch/core.py
+++ b/src/evotorch/core.py
@@ -2368,13 +2368,15 @@ class Problem(TensorMakerMixin, Serializable):
             else:
                 raise ValueError(f"Invalid sense: {senses[i_obj]}")
 
-        best_sln_indices = [batch.argbest(i) for i in range(nobjs)]
-        worst_sln_indices = [batch.argworst(i) for i in range(nobjs)]
-
         for i_obj in range(nobjs):
-            best_sln_index = best_sln_indices[i_obj]
-            worst_sln_index = worst_sln_indices[i_obj]
             scores = batch.access_evals(i_obj)
+            # A solution whose evaluation result is NaN can be neither the best nor the worst.
+            (candidates,) = torch.nonzero(~torch.isnan(scores), as_tuple=True)
+            if len(candidates) == 0:
+                continue
+            lowest = candidates[torch.argmin(scores[candidates])]
+            highest = candidates[torch.argmax(scores[candidates])]
+            best_sln_index, worst_sln_index = (lowest, highest) if senses[i_obj] == "min" else (highest, lowest)
             best_score = scores[best_sln_index]
             worst_score = scores[worst_sln_index]
             if first_is_better(best_score, self._best_evals[i_obj], i_obj) or (
@@ -2389,6 +2391,8 @@ class Problem(TensorMakerMixin, Serializable):
                 self._worst[i_obj] = batch[worst_sln_index].clone()
 
         if len(senses) == 1:
+            if self._best[0] is None:
+                return {}
             return dict(
                 best=self._best[0],
                 worst=self._worst[0],
-- 
2.43.0


From 5f6a8e624e6e4d0a2ff9399d8cda708cb93c4de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:26:39 +0000
Subject: [PATCH 17/79] fix: combine front and crowding ranks exactly in
 take_best

The combined rank was a 32-bit float, in which the crowding part gets lost
when there are many solutions and many fronts.
---
 src/evotorch/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/core.py b/src/evotorch/core.py
index 8cbb490..207d88d 100644
--- a/src/evotorch/core.py
+++ b/src/evotorch/core.py
@@ -4416,7 +4416,7 @@ class SolutionBatch(Serializable):
         if obj_index is None and self._num_objs >= 2:
             ranks, crowdsort_ranks = self.compute_pareto_ranks(crowdsort=True)
             # Combine the ranks, such that solutions with a better crowdsort rank are weighted above solutions with the same pareto rank **only**
-            combined_ranks = ranks.to(torch.float) + 0.1 * crowdsort_ranks.to(torch.float) / len(self)
+            combined_ranks = (ranks * len(self)) + crowdsort_ranks
             indices = torch.argsort(combined_ranks)[:n]
         else:
             indices = self.argsort(obj_index)[:n]
-- 
2.43.0


From 7b817710358eb5f4e9358e1a66074f27e83ee662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:39:26 +0000
Subject: [PATCH 18/79] fix: choose surviving parents among the evaluated ones

A non-elitist genetic algorithm which evaluates parents and children in one
go topped up its population with the parents as they were before that
evaluation, i.e. with missing or outdated fitnesses.
---
 src/evotorch/algorithms/ga.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/algorithms/ga.py b/src/evotorch/algorithms/ga.py
index 701a143..c2d7db0 100644
--- a/src/evotorch/algorithms/ga.py
+++ b/src/evotorch/algorithms/ga.py
@@ -673,7 +673,7 @@ class GeneticAlgorithm(SearchAlgorithm, SinglePopulationAlgorithmMixin, Extended
             if num_children < popsize:
                 # If the number of children is less than the population size, then we keep the best m solutions from
                 # the parents, m being `popsize - num_children`.
-                chosen_parents = self._population.take_best(popsize - num_children)
+                chosen_parents = parents.take_best(popsize - num_children)
 
                 # Combine the children with the chosen parents, and declare them as the new population.
                 self._population = SolutionBatch.cat([chosen_parents, children])
-- 
2.43.0


From 04513b458f3b756084070f9c1a644567963380d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:45:20 +0000
Subject: [PATCH 19/79] fix: keep fixed variables in polynomial mutation

A decision variable whose lower and upper bounds are equal became NaN.
---
 src/evotorch/operators/real.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/operators/real.py b/src/evotorch/operators/real.py
index f723253..f463913 100644
--- a/src/evotorch/operators/real.py
+++ b/src/evotorch/operators/real.py
@@ -572,9 +572,13 @@ class PolynomialMutation(CopyingOperator):
         lb = self._lb.expand(pop_size, solution_length)[to_mutate]
         ub = self._ub.expand(pop_size, solution_length)[to_mutate]
 
+        # Get the size of the allowed range for each variable. For a variable whose lower and upper bounds are equal, the
+        # divisor is taken as 1 to prevent division by 0 (mutation has no effect on such a variable).
+        divisor = torch.where(ub > lb, ub - lb, torch.ones_like(lb))
+
         # Apply the mutation procedure explained by Deb & Tiwari (2008).
-        delta_1 = (selected - lb) / (ub - lb)
-        delta_2 = (ub - selected) / (ub - lb)
+        delta_1 = (selected - lb) / divisor
+        delta_2 = (ub - selected) / divisor
 
         r = self.problem.make_uniform(selected.size())
         mask = r < 0.5
-- 
2.43.0


From 321a332213bc9dfa4bbb26a91c06b2bbbb879a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:47:57 +0000
Subject: [PATCH 20/79] fix: make the feature grid of MAPElites in the
 requested dtype

The borders were rounded to float32, and a float16 grid came out as float32.
---
 src/evotorch/algorithms/mapelites.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/algorithms/mapelites.py b/src/evotorch/algorithms/mapelites.py
index 7709c20..8e185e1 100644
--- a/src/evotorch/algorithms/mapelites.py
+++ b/src/evotorch/algorithms/mapelites.py
@@ -497,7 +497,7 @@ class MAPElites(SearchAlgorithm, SinglePopulationAlgorithmMixin, ExtendedPopulat
         n_inf = torch.tensor([float("-inf")], dtype=dtype, device=device)
 
         def _make_feature_grid(lb, ub, num_bins):
-            sp = torch.linspace(lb, ub, num_bins - 1, device=device)
+            sp = torch.linspace(lb, ub, num_bins - 1, dtype=dtype, device=device)
             sp = torch.cat((n_inf, sp, p_inf))
             return sp.unfold(dimension=0, size=2, step=1).unsqueeze(1)
 
-- 
2.43.0


From 3abf62d1d80a2955ba6a50f95662283d1e2aff78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:49:26 +0000
Subject: [PATCH 21/79] fix: keep suitable solutions with infinite fitness in
 MAPElites cells

A cell whose only suitable solutions had the worst possible fitness was given
an unsuitable solution instead, so that a filled cell could become empty.
---
 src/evotorch/algorithms/mapelites.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/evotorch/algorithms/mapelites.py b/src/evotorch/algorithms/mapelites.py
index 8e185e1..0dbbe02 100644
--- a/src/evotorch/algorithms/mapelites.py
+++ b/src/evotorch/algorithms/mapelites.py
@@ -46,6 +46,10 @@ def _best_solution_considering_feature(
     processed_fitnesses = torch.where(suitable, fitnesses, penalty)
     index = argbest(processed_fitnesses)
 
+    # A suitable solution whose fitness is as bad as the penalty is still preferred over an unsuitable solution.
+    index_suitable = torch.index_select(suitable, 0, index)[0]
+    index = torch.where(index_suitable, index, torch.argmax(suitable.to(dtype=torch.int64)))
+
     selected_dec_values = torch.index_select(decision_values, 0, index)[0]
     selected_evals = torch.index_select(evals, 0, index)[0]
     selected_suitable = torch.index_select(suitable, 0, index)[0]
-- 
2.43.0


From 450fd9fd3e26a708c301d7737ed74f1b3f113d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:01:04 +0000
Subject: [PATCH 22/79] fix: keep originals alive while converting them to
 immutable objects

The conversion remembers already converted objects by their ids. When the
original was a temporary object, such as a tuple produced by zip or by
dict.items, its id could be taken over by a later item. That later item
was then silently stored as a copy of the earlier one.
---
 src/evotorch/tools/immutable.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/evotorch/tools/immutable.py b/src/evotorch/tools/immutable.py
index cccf530..891a8ec 100644
--- a/src/evotorch/tools/immutable.py
+++ b/src/evotorch/tools/immutable.py
@@ -92,6 +92,8 @@ def as_immutable(x: Any, *, memo: Optional[dict] = None) -> Any:
 
     if put_into_memo:
         memo[x_id] = result
+        # The memo is keyed by ids. Keep the original object alive, so that its id is not re-used by another object.
+        memo.setdefault(id(memo), []).append(x)
 
     return result
 
-- 
2.43.0


From 6f7e0f85c9bf7146e71cfeee1390d33076afe5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:01:04 +0000
Subject: [PATCH 23/79] fix: allow storing object arrays inside object arrays

Storing an ObjectArray raised an AttributeError, because its clone is a
numpy array. Objects shared between an inner array and its surroundings
were also duplicated, because the memo was not passed on.
---
 src/evotorch/tools/immutable.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/evotorch/tools/immutable.py b/src/evotorch/tools/immutable.py
index 891a8ec..d5c447b 100644
--- a/src/evotorch/tools/immutable.py
+++ b/src/evotorch/tools/immutable.py
@@ -65,18 +65,15 @@ def as_immutable(x: Any, *, memo: Optional[dict] = None) -> Any:
         result = x
     elif isinstance(x, torch.Tensor):
         result = x.clone().as_subclass(ReadOnlyTensor)
-    elif isinstance(x, ObjectArray):
-        result = x.clone().get_read_only_view()
+    elif isinstance(x, ObjectArray) or (isinstance(x, np.ndarray) and _numpy_array_stores_objects(x)):
+        objects = ObjectArray(len(x))
+        result = objects.get_read_only_view()
+        memo[x_id] = result
+        for i, element in enumerate(x):
+            objects.set_item(i, element, memo=memo)
     elif isinstance(x, np.ndarray):
-        if _numpy_array_stores_objects(x):
-            result = ObjectArray(len(x))
-            for i, element in enumerate(x):
-                result[i] = element
-            result = result.get_read_only_view()
-        else:
-            result = x.copy()
-            result.flags["WRITEABLE"] = False
-            result = result
+        result = x.copy()
+        result.flags["WRITEABLE"] = False
     elif isinstance(x, Mapping):
         result = ImmutableDict(x, memo)
     elif isinstance(x, set):
@@ -111,8 +108,10 @@ def mutable_copy(x: Any, *, memo: Optional[dict] = None) -> Any:
 
     if _is_basic_data(x):
         result = x
-    elif isinstance(x, (ReadOnlyTensor, ObjectArray)):
+    elif isinstance(x, ReadOnlyTensor):
         result = x.clone(preserve_read_only=False)
+    elif isinstance(x, ObjectArray):
+        result = x.clone(preserve_read_only=False, memo=memo)
     elif isinstance(x, np.ndarray):
         result = x.copy()
     elif isinstance(x, torch.Tensor):
-- 
2.43.0


From e7fe007186f0e96a76f169687a14d1983404733e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:01:04 +0000
Subject: [PATCH 24/79] fix: allow unpickling immutable sets

Unpickling an ImmutableSet raised NotImplementedError.
---
 src/evotorch/tools/immutable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/tools/immutable.py b/src/evotorch/tools/immutable.py
index d5c447b..3b060ea 100644
--- a/src/evotorch/tools/immutable.py
+++ b/src/evotorch/tools/immutable.py
@@ -138,7 +138,7 @@ class ImmutableContainer(ReadOnlyClonable, RecursivePrintable):
         # Since we are dealing with immutable containers here, we need to forcefully make all numpy arrays read-only.
         if isinstance(self, Mapping):
             all_values = self.values()
-        elif isinstance(self, Sequence):
+        elif isinstance(self, (Sequence, Set)):
             all_values = self
         else:
             raise NotImplementedError
-- 
2.43.0


From 02baa33e13ea2cdaca3130f5663526b024a0ac54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:01:04 +0000
Subject: [PATCH 25/79] fix: accept a plain integer in ObjectArray.repeat

The documented usage objs.repeat(3) raised a TypeError.
---
 src/evotorch/tools/objectarray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/tools/objectarray.py b/src/evotorch/tools/objectarray.py
index b958951..7b4e70f 100644
--- a/src/evotorch/tools/objectarray.py
+++ b/src/evotorch/tools/objectarray.py
@@ -284,7 +284,7 @@ class ObjectArray(Sequence, RecursivePrintable):
                     f" This is because {type_name} supports only 1-dimensional storage."
                     f" The received size tuple is: {sizes}."
                 )
-        num_repetitions = int(sizes[0])
+        num_repetitions = int(sizes[0]) if is_sequence(sizes) else int(sizes)
         self_length = len(self)
         result = ObjectArray(num_repetitions * self_length)
 
-- 
2.43.0


From 32b46701c1c224d6efe2422d826137ac305a634d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:01:04 +0000
Subject: [PATCH 26/79] fix: handle overlapping assignments between ObjectArray
 views

Assigning a view of an ObjectArray to an overlapping view of the same
array read items which were already overwritten.
---
 src/evotorch/tools/objectarray.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/evotorch/tools/objectarray.py b/src/evotorch/tools/objectarray.py
index 7b4e70f..fea0005 100644
--- a/src/evotorch/tools/objectarray.py
+++ b/src/evotorch/tools/objectarray.py
@@ -381,7 +381,8 @@ class ObjectArray(Sequence, RecursivePrintable):
             if slice_refers_to_whole_array:
                 memo[id(x)] = self
 
-            if not hasattr(x, "__len__"):
+            if (not hasattr(x, "__len__")) or isinstance(x, ObjectArray):
+                # In the case of an ObjectArray, its items are collected first because it might be a view of this array.
                 x = list(x)
 
             if len(x) != len(indices):
-- 
2.43.0


From ce6dd0246e8737245891d382b22a293618baea6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:01:04 +0000
Subject: [PATCH 27/79] fix: keep copies of read-only object arrays read-only

ObjectArray.clone(preserve_read_only=True) and the copies made through
the copy module returned a writable array.
---
 src/evotorch/tools/objectarray.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/evotorch/tools/objectarray.py b/src/evotorch/tools/objectarray.py
index fea0005..444fb4c 100644
--- a/src/evotorch/tools/objectarray.py
+++ b/src/evotorch/tools/objectarray.py
@@ -436,6 +436,8 @@ class ObjectArray(Sequence, RecursivePrintable):
             for i, item in enumerate(self):
                 result[i] = deep_clone(item, otherwise_deepcopy=True, memo=memo)
 
+            result._read_only = self._read_only
+
             return result
 
     def __copy__(self) -> "ObjectArray":
-- 
2.43.0


From 9d2771859a1e8d6066d65f125da736df73c18537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:01:04 +0000
Subject: [PATCH 28/79] fix: keep slices of read-only object arrays read-only

ObjectArray(slice_of=...) returned a writable view of a read-only array.
---
 src/evotorch/tools/objectarray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/tools/objectarray.py b/src/evotorch/tools/objectarray.py
index 444fb4c..82e9148 100644
--- a/src/evotorch/tools/objectarray.py
+++ b/src/evotorch/tools/objectarray.py
@@ -198,7 +198,7 @@ class ObjectArray(Sequence, RecursivePrintable):
                 self._objects = clone(self._objects)
 
         self._device = torch.device("cpu")
-        self._read_only = False
+        self._read_only = False if slice_of is None else slice_of[0]._read_only
 
     @property
     def shape(self) -> Size:
-- 
2.43.0


From 1c818b42df7077d44eab4016536b9cb5e2f8c066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:01:39 +0000
Subject: [PATCH 29/79] fix: refuse in-place torch functions on read-only
 tensors

The in-place methods of a ReadOnlyTensor were disabled. The contents could
still be changed by torch.fill_ and similar functions, by unbound in-place
methods, by the inplace option of the functional interface, by a tuple
given as the out argument, and by assigning to the data attribute.
---
 src/evotorch/tools/readonlytensor.py | 33 ++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/tools/readonlytensor.py b/src/evotorch/tools/readonlytensor.py
index 253c47e..b147ebf 100644
--- a/src/evotorch/tools/readonlytensor.py
+++ b/src/evotorch/tools/readonlytensor.py
@@ -128,12 +128,41 @@ class ReadOnlyTensor(torch.Tensor):
     def __deepcopy__(self, memo):
         return self.clone(preserve_read_only=True)
 
+    def __setattr__(self, attribute_name: str, value: Any):
+        if attribute_name in ("data", "real", "imag"):
+            self.__cannot_modify()
+        super().__setattr__(attribute_name, value)
+
+    __in_place_magic_methods = frozenset(
+        ["__setitem__"]
+        + [
+            f"__i{op}__"
+            for op in (
+                ["add", "and", "div", "floordiv", "lshift", "matmul", "mod"]
+                + ["mul", "or", "pow", "rshift", "sub", "truediv", "xor"]
+            )
+        ]
+    )
+
+    @staticmethod
+    def __has_read_only(x: Any) -> bool:
+        # Determine whether x is a ReadOnlyTensor, or a list or a tuple which has a ReadOnlyTensor.
+        return any(isinstance(t, ReadOnlyTensor) for t in (x if isinstance(x, (list, tuple)) else [x]))
+
     @classmethod
     def __torch_function__(cls, func: Callable, types: Iterable, args: tuple = (), kwargs: Optional[Mapping] = None):
+        func_name = getattr(func, "__name__", "")
+        is_in_place = (
+            (func_name in cls.__in_place_magic_methods)
+            or (func_name.endswith("_") and (not func_name.endswith("__")))
+            or ((kwargs is not None) and bool(kwargs.get("inplace", False)))
+        )
+        if is_in_place and (len(args) > 0) and cls.__has_read_only(args[0]):
+            raise TypeError(f"The contents of a ReadOnlyTensor cannot be modified. Encountered function: {func}.")
         if (kwargs is not None) and ("out" in kwargs):
-            if isinstance(kwargs["out"], ReadOnlyTensor):
+            if cls.__has_read_only(kwargs["out"]):
                 raise TypeError(
-                    f"The `out` keyword argument passed to {func} is a ReadOnlyTensor."
+                    f"The `out` keyword argument passed to {func} has a ReadOnlyTensor."
                     f" A ReadOnlyTensor explicitly fails when referenced via the `out` keyword argument of any torch"
                     f" function."
                     f" This restriction is for making sure that the torch operations which could normally do in-place"
-- 
2.43.0


From 8f2b1ec7359269d18f0009313a88701360222cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:02:09 +0000
Subject: [PATCH 30/79] fix: make read_only_tensor copy its argument

Like torch.tensor, read_only_tensor is documented to make a new tensor.
It returned a view, whose contents changed when the original was modified.
as_read_only_tensor is the function which avoids the copy.
---
 src/evotorch/tools/readonlytensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/tools/readonlytensor.py b/src/evotorch/tools/readonlytensor.py
index b147ebf..dc445cf 100644
--- a/src/evotorch/tools/readonlytensor.py
+++ b/src/evotorch/tools/readonlytensor.py
@@ -210,9 +210,9 @@ def read_only_tensor(
                 f" the arguments `dtype` and `device` were not expected."
                 f" However, the received keyword arguments are: {kwargs}."
             )
-        return x.get_read_only_view()
+        return x.clone(preserve_read_only=True).get_read_only_view()
     else:
-        return torch.as_tensor(x, **kwargs).as_subclass(ReadOnlyTensor)
+        return torch.as_tensor(x, **kwargs).as_subclass(torch.Tensor).clone().as_subclass(ReadOnlyTensor)
 
 
 def as_read_only_tensor(
-- 
2.43.0


From cee5968a72cd769aae5bb9ee122865bdb914d626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:12:01 +0000
Subject: [PATCH 31/79] fix: allow mutable copies of dictionaries with tuple
 keys

An ImmutableDict accepts tuples as keys, but making a mutable copy of it
raised a TypeError. The keys are immutable already and need no copy.
---
 src/evotorch/tools/immutable.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/evotorch/tools/immutable.py b/src/evotorch/tools/immutable.py
index 3b060ea..bb74120 100644
--- a/src/evotorch/tools/immutable.py
+++ b/src/evotorch/tools/immutable.py
@@ -276,7 +276,6 @@ class ImmutableDict(ImmutableContainer, Mapping):
         result = {}
         memo[id(self)] = result
         for k, v in self.items():
-            k = mutable_copy(k, memo=memo)
             v = mutable_copy(v, memo=memo)
             result[k] = v
         return result
-- 
2.43.0


From 78cf40caccbee7cdbe66986b9e93a930771c6807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:21:28 +0000
Subject: [PATCH 32/79] fix: ignore undeclared arguments when typing scalars in
 expects_ndim

A scalar argument is converted to the dtype of the tensor arguments whose
numbers of dimensions are declared. Tensors declared with None were
considered too, which gave wrong dtypes or refused valid calls.
---
 src/evotorch/decorators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/decorators.py b/src/evotorch/decorators.py
index d8e40c0..9e75f15 100644
--- a/src/evotorch/decorators.py
+++ b/src/evotorch/decorators.py
@@ -712,7 +712,7 @@ def expects_ndim(  # noqa: C901
                         cls.encountered_dtypes = set()
                         cls.encountered_devices = set()
                         for expected_arg_ndim, arg in zip(expected_ndims, args):
-                            if (expected_arg_ndims is not None) and isinstance(arg, torch.Tensor):
+                            if (expected_arg_ndim is not None) and isinstance(arg, torch.Tensor):
                                 # If the argument has a declared expected ndim, and also if it is a PyTorch tensor,
                                 # then we add its dtype and device information to the sets `encountered_dtypes` and
                                 # `encountered_devices`.
-- 
2.43.0


From 98230a7512f50b718ba30eb6ad8c210bbea995a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:21:50 +0000
Subject: [PATCH 33/79] fix: refuse undeclared positional arguments in
 expects_ndim

Positional arguments beyond the declared ones were silently dropped, so
that a function with default values ignored what it was given.
---
 src/evotorch/decorators.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/evotorch/decorators.py b/src/evotorch/decorators.py
index 9e75f15..65c6f3f 100644
--- a/src/evotorch/decorators.py
+++ b/src/evotorch/decorators.py
@@ -695,6 +695,12 @@ def expects_ndim(  # noqa: C901
 
     def expects_ndim_decorator(fn: Callable):
         def expects_ndim_decorated(*args):
+            if len(args) > len(expected_ndims):
+                raise TypeError(
+                    f"The function decorated with `expects_ndim` was declared with {len(expected_ndims)} argument(s),"
+                    f" but it received {len(args)} positional arguments."
+                )
+
             # The inner class below is responsible for accumulating the dtype and device info of the tensors
             # encountered across the arguments received by the decorated function.
             # Such dtype and device information will be used if one of the considered arguments is given as a native
-- 
2.43.0


From d25419113c2d2b49aeeab38aa139c7d93d751c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:27:04 +0000
Subject: [PATCH 34/79] fix: avoid nan penalties for infinite constraint
 violations

Without a linear component, an infinite amount of violation was multiplied
by zero, so that step and exponential penalties turned into nan.
---
 src/evotorch/tools/constraints.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/evotorch/tools/constraints.py b/src/evotorch/tools/constraints.py
index 4706186..4d79f34 100644
--- a/src/evotorch/tools/constraints.py
+++ b/src/evotorch/tools/constraints.py
@@ -163,7 +163,8 @@ def _penalty(
     one = torch.zeros_like(violation_amount)
 
     # Initialize the penalty as the amount of violation times the `linear` multiplier
-    penalty = linear * violation_amount
+    # (without such a multiplier, an infinite amount of violation must not become nan)
+    penalty = torch.where(linear == 0, zero, linear * violation_amount)
 
     # Increase the penalty by the constant `step` if there is violation
     penalty = penalty + torch.where(violation_amount > zero, step, zero)
-- 
2.43.0


From 2585ebea5287dd51bd30bbfdb34dd4d4bfcad925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:32:19 +0000
Subject: [PATCH 35/79] fix: keep the caller's parameters when making an
 ExpGaussian

Making an ExpGaussian wrote the diagonal matrix form of sigma, and the
inverse of sigma, into the dictionary given by the caller. A second
distribution made from that dictionary, after the caller had replaced its
sigma, then silently used the inverse of the earlier sigma.
---
 src/evotorch/distributions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/evotorch/distributions.py b/src/evotorch/distributions.py
index 2636a3e..3042794 100644
--- a/src/evotorch/distributions.py
+++ b/src/evotorch/distributions.py
@@ -827,6 +827,9 @@ class ExpGaussian(Distribution):
         device: Optional[Device] = None,
         dtype: Optional[DType] = None,
     ):
+        # The items set below must not appear in the dictionary of the caller
+        parameters = copy(parameters)
+
         [mu_length] = parameters["mu"].shape
 
         # Make sigma 2D
-- 
2.43.0


From fa31a44143177daa042f180a7547fe7545ee6236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:32:19 +0000
Subject: [PATCH 36/79] fix: let XNES use an optimizer for its center

Updating an ExpGaussian looked up a learning rate for the center even when
an optimizer was given for it, so XNES with an optimizer failed with a
KeyError at its second step. The update also failed without learning rates,
and it wrote new items into the dictionary given by the caller.
---
 src/evotorch/distributions.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/evotorch/distributions.py b/src/evotorch/distributions.py
index 3042794..e14daf7 100644
--- a/src/evotorch/distributions.py
+++ b/src/evotorch/distributions.py
@@ -999,10 +999,16 @@ class ExpGaussian(Distribution):
         d_grad = gradients["d"]
         M_grad = gradients["M"]
 
-        if "d" not in learning_rates:
-            learning_rates["d"] = learning_rates["mu"]
-        if "M" not in learning_rates:
-            learning_rates["M"] = learning_rates["sigma"]
+        # The items set below must not appear in the dictionaries of the caller
+        learning_rates = {} if learning_rates is None else copy(learning_rates)
+        optimizers = {} if optimizers is None else copy(optimizers)
+
+        # Unless configured on their own, d and M are updated by the configurations of mu and sigma
+        for local_name, global_name in (("d", "mu"), ("M", "sigma")):
+            if (local_name not in learning_rates) and (local_name not in optimizers):
+                for config in (learning_rates, optimizers):
+                    if global_name in config:
+                        config[local_name] = config[global_name]
 
         # Follow gradients for d, and M
         update_d = self._follow_gradient("d", d_grad, learning_rates=learning_rates, optimizers=optimizers)
-- 
2.43.0


From 18ee06c1fe1707bf283dd41ee0bf9abc9b18632a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:32:19 +0000
Subject: [PATCH 37/79] fix: renew the inverse when the sigma of an ExpGaussian
 changes

Assigning sigma, or making a modified copy with a new sigma, kept the
inverse of the previous sigma, so the gradients were computed in the local
coordinates of another distribution.
---
 src/evotorch/distributions.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/evotorch/distributions.py b/src/evotorch/distributions.py
index e14daf7..1e7ff6f 100644
--- a/src/evotorch/distributions.py
+++ b/src/evotorch/distributions.py
@@ -925,6 +925,17 @@ class ExpGaussian(Distribution):
             new_sigma (torch.Tensor): The new value of sigma, the square root of the covariance matrix
         """
         self.parameters["sigma"] = torch.as_tensor(new_sigma, dtype=self.dtype, device=self.device)
+        # The inverse of the previous sigma is not valid anymore
+        self.parameters["sigma_inv"] = torch.inverse(self.parameters["sigma"])
+
+    def modified_copy(
+        self, *, dtype: Optional[DType] = None, device: Optional[Device] = None, **parameters
+    ) -> "ExpGaussian":
+        if ("sigma" in parameters) and ("sigma_inv" not in parameters):
+            # The inverse of the previous sigma is not valid for the new sigma
+            new_sigma = parameters["sigma"]
+            parameters["sigma_inv"] = torch.inverse(torch.diag(new_sigma) if new_sigma.ndim == 1 else new_sigma)
+        return super().modified_copy(dtype=dtype, device=device, **parameters)
 
     def to_global_coordinates(self, local_coordinates: torch.Tensor) -> torch.Tensor:
         """Map samples from local coordinate space N(0, I_d) to global coordinate space N(mu, A^T A)
-- 
2.43.0


From 68beba63e34b0f007196a95c50d2b0e34d6746a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:32:19 +0000
Subject: [PATCH 38/79] fix: report the covariance of the samples of an
 ExpGaussian

Samples are made as mu + A z, so their covariance is A A^T. The reported
covariance was A^T A, which differs when A is not symmetric.
---
 src/evotorch/distributions.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/evotorch/distributions.py b/src/evotorch/distributions.py
index 1e7ff6f..582d57b 100644
--- a/src/evotorch/distributions.py
+++ b/src/evotorch/distributions.py
@@ -886,8 +886,8 @@ class ExpGaussian(Distribution):
 
     @property
     def cov(self) -> torch.Tensor:
-        """The covariance matrix A^T A"""
-        return self.sigma.transpose(0, 1) @ self.sigma
+        """The covariance matrix A A^T"""
+        return self.sigma @ self.sigma.transpose(0, 1)
 
     @property
     def sigma(self) -> torch.Tensor:
@@ -938,22 +938,22 @@ class ExpGaussian(Distribution):
         return super().modified_copy(dtype=dtype, device=device, **parameters)
 
     def to_global_coordinates(self, local_coordinates: torch.Tensor) -> torch.Tensor:
-        """Map samples from local coordinate space N(0, I_d) to global coordinate space N(mu, A^T A)
+        """Map samples from local coordinate space N(0, I_d) to global coordinate space N(mu, A A^T)
         This function is the inverse of to_local_coordinates
         Args:
             local_coordinates (torch.Tensor): The local coordinates sampled from N(0, I_d)
         Returns:
-            global_coordinates (torch.Tensor): The global coordinates sampled from N(mu, A^T A)
+            global_coordinates (torch.Tensor): The global coordinates sampled from N(mu, A A^T)
         """
         # Global samples are constructed as x = mu + A z where z is local coordinate
         # We use transpose here to simplify the batched application of A
         return self.mu.unsqueeze(0) + (self.A @ local_coordinates.T).T
 
     def to_local_coordinates(self, global_coordinates: torch.Tensor) -> torch.Tensor:
-        """Map samples from global coordinate space N(mu, A^T A) to local coordinate space N(0, I_d)
+        """Map samples from global coordinate space N(mu, A A^T) to local coordinate space N(0, I_d)
         This function is the inverse of to_global_coordinates
         Args:
-            global_coordinates (torch.Tensor): The global coordinates sampled from N(mu, A^T A)
+            global_coordinates (torch.Tensor): The global coordinates sampled from N(mu, A A^T)
         Returns:
             local_coordinates (torch.Tensor): The local coordinates sampled from N(0, I_d)
         """
@@ -962,7 +962,7 @@ class ExpGaussian(Distribution):
         return (self.A_inv @ (global_coordinates - self.mu.unsqueeze(0)).T).T
 
     def _fill(self, out: torch.Tensor, *, generator: Optional[torch.Generator] = None):
-        """Fill a tensor with samples from N(mu, A^T A)
+        """Fill a tensor with samples from N(mu, A A^T)
         Args:
             out (torch.Tensor): The tensor to fill
             generator (Optional[torch.Generator]): A generator to use to generate random values
@@ -975,7 +975,7 @@ class ExpGaussian(Distribution):
     def _compute_gradients(self, samples: torch.Tensor, weights: torch.Tensor, ranking_used: Optional[str]) -> dict:
         """Compute the gradients with respect to a given set of samples and weights
         Args:
-            samples (torch.Tensor): Samples drawn from N(mu, A^T A), ideally using self._fill
+            samples (torch.Tensor): Samples drawn from N(mu, A A^T), ideally using self._fill
             weights (torch.Tensor): Weights e.g. fitnesses or utilities assigned to samples
             ranking_used (optional[str]): The ranking method used to compute weights
         Returns:
-- 
2.43.0


From 3f404119c6290b0db15ba7181e33e2eaa1f4c6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:37:20 +0000
Subject: [PATCH 39/79] fix: allow the nes ranking in batched gradient
 estimation

The nes ranking failed under vmap, so a functional gradient estimator with
this ranking could not be given batches of distributions or samples.
---
 src/evotorch/tools/ranking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/tools/ranking.py b/src/evotorch/tools/ranking.py
index 26534d8..7f5efd6 100644
--- a/src/evotorch/tools/ranking.py
+++ b/src/evotorch/tools/ranking.py
@@ -114,7 +114,7 @@ def nes(fitnesses: torch.Tensor, *, higher_is_better: bool = True) -> torch.Tens
         )
 
         indices = torch.argsort(x, descending=(not higher_is_better))
-        ranks = torch.empty(n, dtype=indices.dtype, device=device)
+        ranks = torch.empty_like(indices)
         ranks[indices] = torch.arange(n, dtype=indices.dtype, device=device)
 
         utils = weights[ranks]
-- 
2.43.0


From 6e47c2dc9494b3801755a0c61f646fb93b3f05a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:49:38 +0000
Subject: [PATCH 40/79] fix: let ClipUp follow a zero gradient

The gradient was divided by its norm also when it was zero. The velocity,
and with it the center of the search, then became nan for good. This
happened, for example, with raw fitnesses which are all the same.
---
 src/evotorch/optimizers.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/evotorch/optimizers.py b/src/evotorch/optimizers.py
index 8f2276c..546a9be 100644
--- a/src/evotorch/optimizers.py
+++ b/src/evotorch/optimizers.py
@@ -345,7 +345,12 @@ class ClipUp:
             about=f"{type(self).__name__}.ascent",
         )
 
-        grad = (globalg / torch.norm(globalg)) * self._stepsize
+        gnorm = torch.norm(globalg)
+        if gnorm > 0:
+            grad = (globalg / gnorm) * self._stepsize
+        else:
+            # A zero gradient has no direction to follow
+            grad = torch.zeros_like(self._velocity)
 
         self._velocity = self._clip((self._momentum * self._velocity) + grad, self._max_speed)
 
-- 
2.43.0


From 4b75016ab084c326ef8afaf9b9fe76b299cf0602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:49:38 +0000
Subject: [PATCH 41/79] fix: let the functional ClipUp follow a zero gradient

A zero gradient was divided by its norm, which made the velocity and the
center nan for good.
---
 src/evotorch/algorithms/functional/funcclipup.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/evotorch/algorithms/functional/funcclipup.py b/src/evotorch/algorithms/functional/funcclipup.py
index 3503299..24ee2d5 100644
--- a/src/evotorch/algorithms/functional/funcclipup.py
+++ b/src/evotorch/algorithms/functional/funcclipup.py
@@ -100,7 +100,10 @@ def _clipup_step(
     momentum: torch.Tensor,
     max_speed: torch.Tensor,
 ) -> tuple:
-    velocity = (momentum * velocity) + (center_learning_rate * (g / torch.norm(g)))
+    gnorm = torch.norm(g)
+    # A zero gradient has no direction to follow
+    g = torch.where(gnorm > 0, g / gnorm, torch.zeros_like(g))
+    velocity = (momentum * velocity) + (center_learning_rate * g)
     vnorm = torch.norm(velocity)
     must_clip = (vnorm > max_speed).expand(velocity.shape)
     velocity = torch.where(must_clip, max_speed * (velocity / vnorm), velocity)
-- 
2.43.0


From b89afad117fd258cd3f66cf8d64eda57c37c2223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:49:38 +0000
Subject: [PATCH 42/79] fix: refuse invalid settings given to ClipUp via its
 parameter group

The limits are stored by setting names, but they were looked up by attribute
names, so a negative maximum speed was accepted.
---
 src/evotorch/optimizers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/optimizers.py b/src/evotorch/optimizers.py
index 546a9be..b3def58 100644
--- a/src/evotorch/optimizers.py
+++ b/src/evotorch/optimizers.py
@@ -403,11 +403,11 @@ class ClipUpParameterGroup(Mapping):
     def __setitem__(self, key: str, value: float):
         attrname = ClipUp._param_group_items[key]
         value = float(value)
-        if attrname in ClipUp._param_group_item_lb:
+        if key in ClipUp._param_group_item_lb:
             lb = ClipUp._param_group_item_lb[key]
             if value < lb:
                 raise ValueError(f"Invalid value for {repr(key)}: {value}")
-        if attrname in ClipUp._param_group_item_ub:
+        if key in ClipUp._param_group_item_ub:
             ub = ClipUp._param_group_item_ub[key]
             if value > ub:
                 raise ValueError(f"Invalid value for {repr(key)}: {value}")
-- 
2.43.0


From 0f2cea1fb5f91ab2dc956fe97390edad611d7f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:49:38 +0000
Subject: [PATCH 43/79] fix: stop re-sampling when the interaction threshold is
 reached

With exactly num_interactions interactions made, one more population was
sampled, although sampling is documented to go on until the threshold is
reached.
---
 src/evotorch/algorithms/distributed/gaussian.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/algorithms/distributed/gaussian.py b/src/evotorch/algorithms/distributed/gaussian.py
index bf01a71..37acce4 100644
--- a/src/evotorch/algorithms/distributed/gaussian.py
+++ b/src/evotorch/algorithms/distributed/gaussian.py
@@ -341,8 +341,8 @@ class GaussianSearchAlgorithm(SearchAlgorithm, SinglePopulationAlgorithmMixin):
                     # We now compute the number of interactions we have made during this while loop.
                     interactions_made = self.problem.status["total_interaction_count"] - first_num_interactions
 
-                    if interactions_made > self._num_interactions:
-                        # If the number of interactions exceeds our threshold, we leave the loop.
+                    if interactions_made >= self._num_interactions:
+                        # If the number of interactions reaches our threshold, we leave the loop.
                         break
 
                 # Finally, we concatenate all our populations into one.
-- 
2.43.0


From d6b62c2f0316a92dbdd5a503def3042ab72aca6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:49:48 +0000
Subject: [PATCH 44/79] fix: stop worker re-sampling when the interaction
 threshold is reached

With exactly num_interactions interactions made, one more batch was sampled
during gradient computation, although the comment and the documentation say
that sampling stops when the threshold is reached.
---
 src/evotorch/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/core.py b/src/evotorch/core.py
index 207d88d..92226ed 100644
--- a/src/evotorch/core.py
+++ b/src/evotorch/core.py
@@ -3267,7 +3267,7 @@ class Problem(TensorMakerMixin, Serializable):
                 # Increase our total population size by the size of the most recent batch.
                 current_popsize += popsize
 
-                if current_num_interactions() > num_interactions:
+                if current_num_interactions() >= num_interactions:
                     # If the number of interactions has reached or exceeded the `num_interactions` threshold,
                     # we exit the loop.
                     break
-- 
2.43.0


From 67891256bf52d25d76ee834d8fe2898f1e9894be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:19:34 +0000
Subject: [PATCH 45/79] fix: clone the elements of numpy arrays of objects

A deep clone of a numpy array with dtype object kept referring to the
elements of the original array, so modifying an element of the clone
modified the original.
---
 src/evotorch/tools/cloning.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/evotorch/tools/cloning.py b/src/evotorch/tools/cloning.py
index 1fe87e6..77d7c2c 100644
--- a/src/evotorch/tools/cloning.py
+++ b/src/evotorch/tools/cloning.py
@@ -145,6 +145,11 @@ def deep_clone(  # noqa: C901
         result = deepcopy(x, memo=memo)
     elif isinstance(x, np.ndarray):
         result = x.copy()
+        if x.dtype == object:
+            # The copy made by numpy refers to the same elements, so each element is to be cloned as well.
+            memo[x_id] = result
+            for index in np.ndindex(x.shape):
+                result[index] = call_self(x[index])
         result.flags["WRITEABLE"] = x.flags["WRITEABLE"]
     elif isinstance(x, (ObjectArray, ReadOnlyClonable)):
         result = x.clone(preserve_read_only=True, memo=memo)
-- 
2.43.0


From cc8645e55bed0a022253510b76b6a2111930515c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:21:31 +0000
Subject: [PATCH 46/79] fix: let PyCMAES draw from a generator of its own

PyCMAES seeded the global generator of numpy, and then drew its samples
from there. Its trajectory on a seeded problem depended on what else used
numpy's generator, a cloned or pickled search did not continue like the
original, and making a PyCMAES changed the random numbers of the rest of
the program. It now draws the same numbers from its own generator.
---
 src/evotorch/algorithms/pycmaes.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/algorithms/pycmaes.py b/src/evotorch/algorithms/pycmaes.py
index ab583ee..b38ec41 100644
--- a/src/evotorch/algorithms/pycmaes.py
+++ b/src/evotorch/algorithms/pycmaes.py
@@ -36,6 +36,16 @@ except ImportError:
     cma = None
 
 
+class _Randn:
+    """Counterpart of `numpy.random.randn` with a generator of its own."""
+
+    def __init__(self, seed: int):
+        self._random_state = np.random.RandomState(seed)
+
+    def __call__(self, *shape):
+        return self._random_state.randn(*shape)
+
+
 class PyCMAES(SearchAlgorithm, SinglePopulationAlgorithmMixin):
     """
     PyCMAES: Covariance Matrix Adaptation Evolution Strategy.
@@ -250,8 +260,10 @@ class PyCMAES(SearchAlgorithm, SinglePopulationAlgorithmMixin):
             inopts["bounds"] = [lb, ub]
 
         # Generate a random seed using the problem object for the sake of reproducibility.
-        if "seed" not in inopts:
-            inopts["seed"] = int(self._problem.make_randint(tuple(), n=(2**32) - 100) + 100)
+        # By default, the cma solver seeds and uses the global generator of numpy. We give it a generator of its own.
+        if ("seed" not in inopts) and ("randn" not in inopts):
+            inopts["randn"] = _Randn(int(self._problem.make_randint(tuple(), n=(2**32) - 100) + 100))
+            inopts["seed"] = None
 
         # Instantiate the CMAEvolutionStrategy with the prepared configuration items.
         self._es = cma.CMAEvolutionStrategy(x0, sigma0, inopts)
-- 
2.43.0


From a434b2369414916f72fe6b8b15e58bdc7ca194c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:32:31 +0000
Subject: [PATCH 47/79] fix: do not advance the global generator when a
 generator is given

Sampling from a distribution or generating solutions made a dummy random
number from PyTorch's global generator, only to make a tensor which is
aware of vmap. Therefore a search on a seeded problem changed the random
numbers of the rest of the program. The dummy number is now made by a
generator which serves only this purpose.
---
 src/evotorch/tools/misc.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/evotorch/tools/misc.py b/src/evotorch/tools/misc.py
index d219d38..75ed846 100644
--- a/src/evotorch/tools/misc.py
+++ b/src/evotorch/tools/misc.py
@@ -2206,6 +2206,11 @@ def storage_ptr(x: Iterable) -> int:
     return _storage_ptr(x)
 
 
+# Generators used for making batched `False` values, one for each device. These generators have no effect on the results,
+# but without them, making a batched `False` would advance the global generator.
+_generators_for_vmap = {}
+
+
 def make_batched_false_for_vmap(device: Device) -> torch.Tensor:
     """
     Get `False`, properly batched if inside `vmap(..., randomness='different')`.
@@ -2307,4 +2312,7 @@ def make_batched_false_for_vmap(device: Device) -> torch.Tensor:
         a batch of scalar tensors (i.e. a `BatchedTensor`) if we are inside
         `vmap(..., randomness="different")`.
     """
-    return torch.randint(0, 1, tuple(), dtype=torch.bool, device=device)
+    device = torch.device(device)
+    if device not in _generators_for_vmap:
+        _generators_for_vmap[device] = torch.Generator(device=device)
+    return torch.randint(0, 1, tuple(), dtype=torch.bool, device=device, generator=_generators_for_vmap[device])
-- 
2.43.0


From 09174a2584a4e4adb2a5a0efcf9042894c1218bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:29:49 +0000
Subject: [PATCH 48/79] fix: let a seeded problem have actors

The actors of a problem with its own random generator called a method named
`seed`, which does not exist: making a problem with a seed and with actors
ended with an error at the first evaluation.
---
 src/evotorch/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/core.py b/src/evotorch/core.py
index 92226ed..8fd8aac 100644
--- a/src/evotorch/core.py
+++ b/src/evotorch/core.py
@@ -137,7 +137,7 @@ class EvaluationActor:
         np.random.seed(np_global)
         torch.manual_seed(torch_global)
         if self._problem.has_own_generator:
-            self._problem.seed(probseed)
+            self._problem.manual_seed(probseed)
         self._problem._use_pickle_data_from_main(state)
         self._problem.remote_hook(self._problem)
         if isinstance(self._problem._num_gpus_per_actor, str) and (self._problem._num_gpus_per_actor == "all"):
-- 
2.43.0


From dc33cff239020e8d8e722053f7771a0a357b773c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:29:49 +0000
Subject: [PATCH 49/79] fix: allow a problem to be used again after kill_actors

Actors created after a call of kill_actors did not receive the shared
attributes, because the problem was still marked as prepared. Calling
kill_actors without actors, for example twice, ended with an error.
---
 src/evotorch/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/evotorch/core.py b/src/evotorch/core.py
index 8fd8aac..574b96f 100644
--- a/src/evotorch/core.py
+++ b/src/evotorch/core.py
@@ -2122,10 +2122,14 @@ class Problem(TensorMakerMixin, Serializable):
                 " Problem instance."
                 " However, this Problem instance is on a remote actor."
             )
+        if self._actors is None:
+            return
         for actor in self._actors:
             ray.kill(actor)
         self._actors = None
         self._actor_pool = None
+        # If the actors are created again, they will have to be prepared again.
+        self._prepared = False
 
     @property
     def num_actors(self) -> int:
-- 
2.43.0


From e3fc6b86d6cf2cc0e62758b62d0d90cf040ab442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:29:49 +0000
Subject: [PATCH 50/79] fix: do not send empty pieces to the actors

A batch with fewer solutions than there are actors, or than the configured
number of sub-batches, was split into pieces some of which were empty, and
evaluating an empty piece ended with an error.
---
 src/evotorch/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/evotorch/core.py b/src/evotorch/core.py
index 574b96f..8c52224 100644
--- a/src/evotorch/core.py
+++ b/src/evotorch/core.py
@@ -2600,7 +2600,8 @@ class Problem(TensorMakerMixin, Serializable):
             #    batch._evdata[row_begin:row_end, :] = evals
 
             mapresult = self._actor_pool.map_unordered(
-                lambda a, v: a.evaluate_batch_piece.remote(v[0], v[1]), list(enumerate(pieces))
+                lambda a, v: a.evaluate_batch_piece.remote(v[0], v[1]),
+                [(i, piece) for i, piece in enumerate(pieces) if len(piece) > 0],
             )
             for i, evals in mapresult:
                 row_begin, row_end = pieces.indices_of(i)
-- 
2.43.0


From ab0211b0ef67eed6093589d4084ed70b04d65899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:29:49 +0000
Subject: [PATCH 51/79] fix: prepare the copy of a problem which had actors

The copy of a problem was marked as prepared when the original was. If the
original had actors, then it was these actors which were prepared. The copy
went on without preparations and without sharing its attributes with its own
actors.
---
 src/evotorch/core.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/evotorch/core.py b/src/evotorch/core.py
index 8c52224..e3ea1f1 100644
--- a/src/evotorch/core.py
+++ b/src/evotorch/core.py
@@ -2739,6 +2739,11 @@ class Problem(TensorMakerMixin, Serializable):
                             otherwise_deepcopy=True,
                             memo=memo,
                         )
+
+        if self._actors is not None:
+            # The preparations were made by the actors, which are not copied. Therefore, the copy is not prepared.
+            result["_prepared"] = False
+
         return result
 
     def _get_local_interaction_count(self) -> int:
-- 
2.43.0


From ebc285be7d65017e84140b821dc8ad5a4edc5f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:29:49 +0000
Subject: [PATCH 52/79] fix: do not estimate gradients from empty populations

In distributed mode with a population smaller than the number of actors, the
actors without a share estimated their gradients from zero samples, which
made the averaged gradients NaN.
---
 src/evotorch/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/evotorch/core.py b/src/evotorch/core.py
index e3ea1f1..3649bb9 100644
--- a/src/evotorch/core.py
+++ b/src/evotorch/core.py
@@ -2937,6 +2937,9 @@ class Problem(TensorMakerMixin, Serializable):
                         # If the i-th actor's assigned popsize is not even, increase its assigned popsize by 1.
                         popsize_per_task[i] += 1
 
+            # A task with an empty share would have no samples to compute its gradients from.
+            popsize_per_task = [n for n in popsize_per_task if n > 0]
+
             # The number of tasks is finally determined by the length of `popsize_per_task` list we created above.
             num_tasks = len(popsize_per_task)
 
-- 
2.43.0


From c4648d7d4dc2e8fccaa48553bf8f2f7cd508933b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:29:49 +0000
Subject: [PATCH 53/79] fix: treat the gradient arguments in the same way with
 and without actors

With actors, sample_and_compute_gradients ended with an error when the
objective index was left to its default, did not convert a distribution of
another dtype, and ignored with_stats.
---
 src/evotorch/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/evotorch/core.py b/src/evotorch/core.py
index 3649bb9..ea45e8d 100644
--- a/src/evotorch/core.py
+++ b/src/evotorch/core.py
@@ -2978,13 +2978,15 @@ class Problem(TensorMakerMixin, Serializable):
                 self._actor_pool.map_unordered(
                     (
                         lambda a, v: a.call.remote(
-                            "_sample_and_compute_gradients",
+                            "_gradient_computation_helper",
                             [dist_on_cpu, v[0]],
                             {
                                 "obj_index": obj_index,
                                 "num_interactions": v[1],
                                 "popsize_max": v[2],
                                 "ranking_method": ranking_method,
+                                "with_stats": with_stats,
+                                "move_results_to_device": "cpu",
                             },
                         )
                     ),
-- 
2.43.0


From e7f6bd9342744b2dd3a4d22c826a5e0cc2c8e619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:29:49 +0000
Subject: [PATCH 54/79] fix: prepare the problem before a distributed gradient
 estimation

Shared attributes were only sent to the actors by an evaluation in the main
process. In distributed mode no such evaluation takes place, and the actors
evaluated their populations without the shared attributes.
---
 src/evotorch/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/evotorch/core.py b/src/evotorch/core.py
index ea45e8d..d2b4fdd 100644
--- a/src/evotorch/core.py
+++ b/src/evotorch/core.py
@@ -2969,6 +2969,9 @@ class Problem(TensorMakerMixin, Serializable):
             # If this problem instance has nothing to synchronize, then `must_sync_after` will be False.
             must_sync_after = self._sync_before()
 
+            # As is done before an evaluation, we make sure that the problem and its actors are prepared.
+            self._start_preparations()
+
             # Because we want to send the distribution to remote actors, we first copy the distribution to cpu
             # (unless it is already on cpu)
             dist_on_cpu = distribution.to("cpu")
-- 
2.43.0


From 106ab961c7df9d35362e5a9ed5a0b54188d96955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:30:10 +0000
Subject: [PATCH 55/79] fix: let XNES run in distributed mode

The averaged gradients were allocated as vectors, although one of the
gradients of XNES is a matrix. The first distributed step of XNES ended with
an error.
---
 src/evotorch/algorithms/distributed/gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/algorithms/distributed/gaussian.py b/src/evotorch/algorithms/distributed/gaussian.py
index 37acce4..5c6a8d0 100644
--- a/src/evotorch/algorithms/distributed/gaussian.py
+++ b/src/evotorch/algorithms/distributed/gaussian.py
@@ -246,7 +246,7 @@ class GaussianSearchAlgorithm(SearchAlgorithm, SinglePopulationAlgorithmMixin):
         # For each gradient (in most cases among 'mu' and 'sigma'), we allocate a new 0-filled tensor.
         avg_gradients = {}
         for key in grad_keys:
-            avg_gradients[key] = self._distribution.make_zeros(num_solutions=1).reshape(-1)
+            avg_gradients[key] = torch.zeros_like(list_of.gradients[0][key])
 
         # Below, we iterate over all collected results and add their gradients, in a weighted manner, onto the
         # `avg_gradients` we allocated above.
-- 
2.43.0


From 6538d0abc454cc59019fd5a9146936b340ef340c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:30:10 +0000
Subject: [PATCH 56/79] fix: keep the dtype and the device of the center with
 radius_init

With radius_init, the functional searches cem and pgpe made their initial
standard deviation with the default dtype on the default device. With the
center in a narrower dtype, or on another device, the first ask ended with
an error.
---
 src/evotorch/algorithms/functional/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/algorithms/functional/misc.py b/src/evotorch/algorithms/functional/misc.py
index b0683fa..e25303c 100644
--- a/src/evotorch/algorithms/functional/misc.py
+++ b/src/evotorch/algorithms/functional/misc.py
@@ -154,7 +154,7 @@ def _get_stdev_init(
         # the vector(s) is/are equal to the given radius value(s).
         radius_init = torch.as_tensor(radius_init, dtype=dtype, device=device)
         stdev_element = torch.sqrt((radius_init**2) / solution_length)
-        final_stdev = stdev_element[..., None] * torch.ones(solution_length)
+        final_stdev = stdev_element[..., None] * torch.ones(solution_length, dtype=dtype, device=device)
         return final_stdev
     else:
         raise ValueError(
-- 
2.43.0


From 511d5731e79b5084dd20533aa987cb9b0a1ef084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:06:42 +0000
Subject: [PATCH 57/79] fix: keep the caller's observation when updating a
 RunningNorm

When the first update was made with a single observation, the tensor of the
caller became the stored sum. The later updates then changed the tensor of
the caller, and changes made by the caller changed the statistics.
---
 src/evotorch/neuroevolution/net/runningnorm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/evotorch/neuroevolution/net/runningnorm.py b/src/evotorch/neuroevolution/net/runningnorm.py
index dae84b8..1b9313b 100644
--- a/src/evotorch/neuroevolution/net/runningnorm.py
+++ b/src/evotorch/neuroevolution/net/runningnorm.py
@@ -322,7 +322,8 @@ class RunningNorm:
                 # the sum of observations extracted from x is x itself,
                 # and the sum of squared observations extracted from x is
                 # the square of x itself.
-                sum_of_x = x
+                # (we work on a clone of x, because the stored sum will be updated in-place later)
+                sum_of_x = x.clone()
                 sum_of_x_squared = x.square()
                 # We extracted a single observation from x
                 n = 1
-- 
2.43.0


From 4eca1d7d30680abe953a1772e663d05d5629ba35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:06:42 +0000
Subject: [PATCH 58/79] fix: let a RunningNorm be updated first with no
 observations

An empty batch, or a batch whose mask is entirely False, left an empty
RunningNorm with sums but with a count of 0. All updates after that ended
with an assertion error.
---
 src/evotorch/neuroevolution/net/runningnorm.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/evotorch/neuroevolution/net/runningnorm.py b/src/evotorch/neuroevolution/net/runningnorm.py
index 1b9313b..8f8b9e4 100644
--- a/src/evotorch/neuroevolution/net/runningnorm.py
+++ b/src/evotorch/neuroevolution/net/runningnorm.py
@@ -389,6 +389,10 @@ class RunningNorm:
             # (sum of all squared observations), and n (number of observations extracted
             # from x).
 
+            if n == 0:
+                # There is no observation to learn from.
+                return
+
             if self._has_no_data():
                 # If our RunningNorm is empty, the observation data we extracted from x
                 # become our RunningNorm's new data.
-- 
2.43.0


From 1d0448bb19005a49027df9149cc7fc2798d483ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:06:42 +0000
Subject: [PATCH 59/79] fix: ignore masked observations of a RunningNorm even
 if they are NaN

The observations which are masked out were multiplied by 0, which leaves NaN
and infinite values as NaN, and made the statistics NaN.
---
 src/evotorch/neuroevolution/net/runningnorm.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/evotorch/neuroevolution/net/runningnorm.py b/src/evotorch/neuroevolution/net/runningnorm.py
index 8f8b9e4..dec9619 100644
--- a/src/evotorch/neuroevolution/net/runningnorm.py
+++ b/src/evotorch/neuroevolution/net/runningnorm.py
@@ -359,14 +359,12 @@ class RunningNorm:
                     # This integer gives us how many observations we extract from x.
                     n = int(torch.sum(torch.as_tensor(mask, dtype=torch.int64, device=self._device)))
 
-                    # We now re-cast the mask as the observation dtype (so that True items turn to 1.0
-                    # and False items turn to 0.0), and then increase its number of dimensions so that
-                    # it can operate directly with x.
-                    mask = self._like_its_own(mask).reshape(torch.Size([x.shape[0]] + ([1] * (x.ndim - 1))))
-
-                    # Finally, we multiply x with the mask. This means that the observations with corresponding
-                    # mask values as False are zeroed out.
-                    x = x * mask
+                    # We now increase the number of dimensions of the mask so that it can operate directly with x.
+                    mask = mask.reshape(torch.Size([x.shape[0]] + ([1] * (x.ndim - 1))))
+
+                    # Finally, the observations with corresponding mask values as False are zeroed out
+                    # (even when they contain NaNs or infinities).
+                    x = torch.where(mask, x, torch.zeros_like(x))
                 else:
                     # This is the case where we did not receive a mask.
                     # We can simply say that the number of observations to extract from x
-- 
2.43.0


From fb1d6ca4e8693b94dd80603dd7cbfd41a1a53d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:06:42 +0000
Subject: [PATCH 60/79] fix: report the shape of an incompatible observation

The error for an observation of incompatible shape was an AttributeError
raised while making its message.
---
 src/evotorch/neuroevolution/net/runningnorm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/neuroevolution/net/runningnorm.py b/src/evotorch/neuroevolution/net/runningnorm.py
index dec9619..fc41d4c 100644
--- a/src/evotorch/neuroevolution/net/runningnorm.py
+++ b/src/evotorch/neuroevolution/net/runningnorm.py
@@ -193,7 +193,7 @@ class RunningNorm:
             if x.shape != self._shape:
                 raise ValueError(
                     f"This RunningNorm instance was initialized with shape: {self._shape}."
-                    f" However, the provided tensor has an incompatible shape: {x._shape}."
+                    f" However, the provided tensor has an incompatible shape: {x.shape}."
                 )
         elif x.ndim == (self._ndim + 1):
             if x.shape[1:] != self._shape:
@@ -274,7 +274,7 @@ class RunningNorm:
                     # We therefore raise an error.
                     raise ValueError(
                         f"The RunningNorm to be updated has the shape {self._shape}"
-                        f" The other RunningNorm has the shape {self._shape}"
+                        f" The other RunningNorm has the shape {x._shape}"
                         f" These shapes are incompatible."
                     )
 
-- 
2.43.0


From 203f2069d6ba057c87f3b749d149b62c6b476ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:06:42 +0000
Subject: [PATCH 61/79] fix: keep the totals right after the actors are killed
 and created again

New actors start as copies of the main problem. Each of them therefore
continued the total interaction and episode counts, and these totals were
counted once per actor after the next evaluation. Also, the states of the
actors which were collected by an earlier copying of the problem were given
to the new actors.
---
 src/evotorch/core.py                    | 1 +
 src/evotorch/neuroevolution/gymne.py    | 5 +++++
 src/evotorch/neuroevolution/vecgymne.py | 5 +++++
 3 files changed, 11 insertions(+)

diff --git a/src/evotorch/core.py b/src/evotorch/core.py
index d2b4fdd..109b2ab 100644
--- a/src/evotorch/core.py
+++ b/src/evotorch/core.py
@@ -2128,6 +2128,7 @@ class Problem(TensorMakerMixin, Serializable):
             ray.kill(actor)
         self._actors = None
         self._actor_pool = None
+        self._remote_states = None
         # If the actors are created again, they will have to be prepared again.
         self._prepared = False
 
diff --git a/src/evotorch/neuroevolution/gymne.py b/src/evotorch/neuroevolution/gymne.py
index 74d1ba9..00a899a 100644
--- a/src/evotorch/neuroevolution/gymne.py
+++ b/src/evotorch/neuroevolution/gymne.py
@@ -583,6 +583,11 @@ class GymNE(NEProblem):
         # this function restores the inner states specific to this remote
         # worker. In the case of GymNE, those inner states are episode
         # and interaction counters.
+        if (len(state) == 0) and (self.actor_index > 0):
+            # There is no state to restore, and the counters of the main Problem are continued by the first worker.
+            # Therefore, the counters of the other workers start from 0.
+            self.set_episode_count(0)
+            self.set_interaction_count(0)
         for k, v in state.items():
             if k == "episode_count":
                 self.set_episode_count(v)
diff --git a/src/evotorch/neuroevolution/vecgymne.py b/src/evotorch/neuroevolution/vecgymne.py
index f46e7c1..14058cb 100644
--- a/src/evotorch/neuroevolution/vecgymne.py
+++ b/src/evotorch/neuroevolution/vecgymne.py
@@ -725,6 +725,11 @@ class VecGymNE(BaseNEProblem):
         # this function restores the inner states specific to this remote
         # worker. In the case of GymNE, those inner states are episode
         # and interaction counters.
+        if (len(state) == 0) and (self.actor_index > 0):
+            # There is no state to restore, and the counters of the main Problem are continued by the first worker.
+            # Therefore, the counters of the other workers start from 0.
+            self.set_episode_count(0)
+            self.set_interaction_count(0)
         for k, v in state.items():
             if k == "episode_count":
                 self.set_episode_count(v)
-- 
2.43.0


From 1faf2faa8a4f55a7eb9de16124f32fb8eb5e8e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:06:42 +0000
Subject: [PATCH 62/79] fix: keep the network of a neuroevolution problem after
 its preparation

The instantiated network is not copied with the problem, and the original
network was cleared once the problem was prepared. Therefore, the copy of a
problem which had been used could not make its network.
---
 src/evotorch/neuroevolution/neproblem.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/evotorch/neuroevolution/neproblem.py b/src/evotorch/neuroevolution/neproblem.py
index 4f03195..3bd6119 100644
--- a/src/evotorch/neuroevolution/neproblem.py
+++ b/src/evotorch/neuroevolution/neproblem.py
@@ -317,8 +317,6 @@ class NEProblem(BaseNEProblem):
     def _prepare(self) -> None:
         """Instantiate the network on the target device, if not already done"""
         self.instantiated_network = self._instantiate_net(self._original_network)
-        # Clear reference to original network
-        self._original_network = None
 
     def make_net(self, parameters: Iterable) -> nn.Module:
         """
-- 
2.43.0


From 782701ca8340c104d4d6d8a7ac64c4547c3cf632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:06:42 +0000
Subject: [PATCH 63/79] fix: respect the argument num_subbatches of GymNE

It was accepted and then ignored.
---
 src/evotorch/neuroevolution/gymne.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/evotorch/neuroevolution/gymne.py b/src/evotorch/neuroevolution/gymne.py
index 00a899a..8319ea6 100644
--- a/src/evotorch/neuroevolution/gymne.py
+++ b/src/evotorch/neuroevolution/gymne.py
@@ -285,6 +285,7 @@ class GymNE(NEProblem):
             initial_bounds=initial_bounds,
             num_actors=num_actors,
             actor_config=actor_config,
+            num_subbatches=num_subbatches,
             subbatch_size=subbatch_size,
             device="cpu",
         )
-- 
2.43.0


From af8f568324c3df151e78c0ebed647e3295b6468a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:06:42 +0000
Subject: [PATCH 64/79] fix: check the action space of a GymNE environment

The observation space was checked twice.
---
 src/evotorch/neuroevolution/gymne.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/neuroevolution/gymne.py b/src/evotorch/neuroevolution/gymne.py
index 8319ea6..dd87ae0 100644
--- a/src/evotorch/neuroevolution/gymne.py
+++ b/src/evotorch/neuroevolution/gymne.py
@@ -47,7 +47,7 @@ def ensure_space_types(env: gym.Env) -> None:
             f"The gym environment has an unsupported type of observation space: {type(env.observation_space)}."
             f" The only supported observation space type is gym.spaces.Box."
         )
-    if not isinstance(env.observation_space, (gym.spaces.Box, gym.spaces.Discrete)):
+    if not isinstance(env.action_space, (gym.spaces.Box, gym.spaces.Discrete)):
         raise TypeError(
             f"The gym environment has an unsupported type of action space: {type(env.action_space)}."
             f" Supported action space types are gym.spaces.Box and gym.spaces.Discrete."
-- 
2.43.0


From 391485af234efb209fda9b33454031e40680eaa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:06:42 +0000
Subject: [PATCH 65/79] fix: respect the argument max_num_envs of VecGymNE when
 there are actors

The limit of each actor was sent by a call with missing arguments, whose
error was not seen by anyone. It was also not sent to the actors of copied
problems and to the actors created after kill_actors().
---
 src/evotorch/neuroevolution/vecgymne.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/evotorch/neuroevolution/vecgymne.py b/src/evotorch/neuroevolution/vecgymne.py
index 14058cb..1a13dd4 100644
--- a/src/evotorch/neuroevolution/vecgymne.py
+++ b/src/evotorch/neuroevolution/vecgymne.py
@@ -438,17 +438,19 @@ class VecGymNE(BaseNEProblem):
         self.after_eval_hook.append(self._extra_status)
 
     def _parallelize(self):
+        had_actors = self._actors is not None
         super()._parallelize()
         if self.is_main:
-            if not self._actor_max_num_envs_ready:
-                if self._actors is None:
+            if self._actors is None:
+                if not self._actor_max_num_envs_ready:
                     self._actor_max_num_envs = self._max_num_envs
-                else:
-                    if self._max_num_envs is not None:
-                        max_num_envs_per_actor = split_workload(self._max_num_envs, len(self._actors))
-                        for i_actor, actor in enumerate(self._actors):
-                            actor.call.remote("_set_actor_max_num_envs", max_num_envs_per_actor[i_actor])
-                self._actor_max_num_envs_ready = True
+                    self._actor_max_num_envs_ready = True
+            elif not had_actors:
+                # The actors are new. They need to know how many environments they can have.
+                if self._max_num_envs is not None:
+                    max_num_envs_per_actor = split_workload(self._max_num_envs, len(self._actors))
+                    for i_actor, actor in enumerate(self._actors):
+                        actor.call.remote("_set_actor_max_num_envs", [max_num_envs_per_actor[i_actor]], {})
 
     def _set_actor_max_num_envs(self, n: int):
         self._actor_max_num_envs = n
-- 
2.43.0


From 2eeb407ce1b242bffd0af92a51a0ddf0d18de156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:06:42 +0000
Subject: [PATCH 66/79] fix: collect observation statistics when an actor had
 nothing to do

An actor which received no solutions has no statistics to return, and the
evaluation then ended with an error. Also, the statistics given to
set_observation_stats and update_observation_stats were kept by reference,
and were changed by the evaluations after that.
---
 src/evotorch/neuroevolution/vecgymne.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/neuroevolution/vecgymne.py b/src/evotorch/neuroevolution/vecgymne.py
index 1a13dd4..5e1960e 100644
--- a/src/evotorch/neuroevolution/vecgymne.py
+++ b/src/evotorch/neuroevolution/vecgymne.py
@@ -15,6 +15,7 @@
 import pickle
 import random
 from collections.abc import Mapping
+from copy import deepcopy
 from datetime import datetime
 from pathlib import Path
 from typing import Any, Callable, Iterable, Optional, Union
@@ -669,7 +670,8 @@ class VecGymNE(BaseNEProblem):
     def set_observation_stats(self, rn: RunningNorm):
         """Set the observation stats"""
         self._ensure_obsnorm()
-        self._obs_stats = rn
+        # A copy is stored, because the stored statistics will be updated in-place.
+        self._obs_stats = deepcopy(rn)
 
     def _use_sync_data_from_main(self, received: dict):
         for k, v in received.items():
@@ -697,8 +699,12 @@ class VecGymNE(BaseNEProblem):
     def update_observation_stats(self, rn: RunningNorm):
         """Update the observation stats via another RunningNorm instance"""
         self._ensure_obsnorm()
+        if rn is None:
+            # This is the case where nothing was collected (e.g. by an actor which had nothing to do).
+            return
         if self._obs_stats is None:
-            self._obs_stats = rn
+            # A copy is stored, because the stored statistics will be updated in-place.
+            self._obs_stats = deepcopy(rn)
         else:
             self._obs_stats.update(rn)
 
-- 
2.43.0


From c4509ec4f6e933c28048d446f9eb37d98aba05e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:06:42 +0000
Subject: [PATCH 67/79] fix: make the action noise of VecGymNE Gaussian

The noise was sampled from the uniform distribution between 0 and the
standard deviation, although it is documented (and is, in GymNE) Gaussian
with mean 0.
---
 src/evotorch/neuroevolution/vecgymne.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/neuroevolution/vecgymne.py b/src/evotorch/neuroevolution/vecgymne.py
index 5e1960e..1f1539b 100644
--- a/src/evotorch/neuroevolution/vecgymne.py
+++ b/src/evotorch/neuroevolution/vecgymne.py
@@ -854,7 +854,7 @@ class VecGymNE(BaseNEProblem):
             if self._action_noise_stdev is not None:
                 # If we are to apply action noise, we sample from a Gaussian distribution and add the noise onto
                 # the actions.
-                action_per_env = action_per_env + (torch.rand_like(action_per_env) * self._action_noise_stdev)
+                action_per_env = action_per_env + (torch.randn_like(action_per_env) * self._action_noise_stdev)
 
             # Apply the actions, get the observations, rewards, and the 'done' flags.
             obs_per_env, reward_per_env, done_per_env, _ = env.step(action_per_env)
-- 
2.43.0


From 5475d1a3454432e231af74da4112729c1499c838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:06:42 +0000
Subject: [PATCH 68/79] fix: normalize observations of VecGymNE when not
 updating the statistics

The method updated the statistics and returned None.
---
 src/evotorch/neuroevolution/vecgymne.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/neuroevolution/vecgymne.py b/src/evotorch/neuroevolution/vecgymne.py
index 1f1539b..8b4a2fe 100644
--- a/src/evotorch/neuroevolution/vecgymne.py
+++ b/src/evotorch/neuroevolution/vecgymne.py
@@ -642,7 +642,7 @@ class VecGymNE(BaseNEProblem):
             else:
                 # This is the case where the `update_stats` argument was encountered as False.
                 # Here we normalize the observation but do not update our existing RunningNorm instances.
-                result = self._obs_stats.update(observation, mask)
+                result = self._obs_stats.normalize(observation)
             return result
         else:
             # This is the case where observation normalization is disabled.
-- 
2.43.0


From f57cf00e661300e024f8401b969db5b98fd3c31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:16:54 +0000
Subject: [PATCH 69/79] fix: check the length of a parameter vector before
 filling a network

fill_parameters noticed a vector of a wrong length only while, or after,
writing it into the network. The refused vector was left in the network.
---
 src/evotorch/neuroevolution/net/misc.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/evotorch/neuroevolution/net/misc.py b/src/evotorch/neuroevolution/net/misc.py
index adbaa3b..584c612 100644
--- a/src/evotorch/neuroevolution/net/misc.py
+++ b/src/evotorch/neuroevolution/net/misc.py
@@ -35,6 +35,11 @@ def fill_parameters(net: nn.Module, vector: torch.Tensor):
         net: The torch module whose parameter values will be filled.
         vector: A 1-D torch tensor which stores the parameter values.
     """
+    if len(vector) != count_parameters(net):
+        raise IndexError(
+            f"The parameter vector was expected with length {count_parameters(net)}, but its length is {len(vector)}"
+        )
+
     address = 0
     for p in net.parameters():
         d = p.data.view(-1)
@@ -42,9 +47,6 @@ def fill_parameters(net: nn.Module, vector: torch.Tensor):
         d[:] = torch.as_tensor(vector[address : address + n], device=d.device)
         address += n
 
-    if address != len(vector):
-        raise IndexError("The parameter vector is larger than expected")
-
 
 @torch.no_grad()
 def parameter_vector(net: nn.Module, *, device: Optional[Device] = None) -> torch.Tensor:
-- 
2.43.0


From 34c780d9e455c6203b852bfbb992bb8ccd7a89d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:16:54 +0000
Subject: [PATCH 70/79] fix: give the exported policy its own parameters

The parameters of the module made by Policy.to_torch_module shared the memory
of the given vector, so that later changes of the vector changed the exported
module, and the other way around. A vector which is too long was accepted
silently.
---
 src/evotorch/neuroevolution/net/vecrl.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/neuroevolution/net/vecrl.py b/src/evotorch/neuroevolution/net/vecrl.py
index cfb04cc..2e91276 100644
--- a/src/evotorch/neuroevolution/net/vecrl.py
+++ b/src/evotorch/neuroevolution/net/vecrl.py
@@ -36,7 +36,6 @@ from gymnasium.spaces import Box, Discrete, MultiDiscrete, Space
 
 # from gymnasium.vector import SyncVectorEnv
 from torch import nn
-from torch.nn import utils as nnu
 
 try:
     import jax
@@ -1355,9 +1354,11 @@ class Policy:
         Returns:
             Copy of the contained network, as a `torch.nn.Module` instance.
         """
+        from ..net.misc import fill_parameters
+
         with torch.no_grad():
             net = deepcopy(self.__module).to(parameter_vector.device)
-            nnu.vector_to_parameters(parameter_vector, net.parameters())
+            fill_parameters(net, parameter_vector)
         return net
 
 
-- 
2.43.0


From 7206b353b5d38c6c7ebc81919df625f11e98fefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:16:54 +0000
Subject: [PATCH 71/79] fix: return the stored buffers of a functional module

ModuleExpectingFlatParameters.buffers returned the names of the buffers.
---
 src/evotorch/neuroevolution/net/functional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/neuroevolution/net/functional.py b/src/evotorch/neuroevolution/net/functional.py
index 4c912db..5ef88d1 100644
--- a/src/evotorch/neuroevolution/net/functional.py
+++ b/src/evotorch/neuroevolution/net/functional.py
@@ -149,7 +149,7 @@ class ModuleExpectingFlatParameters:
     @property
     def buffers(self) -> tuple:
         """Get the stored buffers"""
-        return tuple(self.__buffer_dict)
+        return tuple(self.__buffer_dict.values())
 
     @property
     def parameter_length(self) -> int:
-- 
2.43.0


From 62ab52a6929f7de64653c0f6c419bfe8197728dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:16:54 +0000
Subject: [PATCH 72/79] fix: keep the tensor of the caller when setting
 parameters of some policies

Policy.set_parameters with indices wrote into the tensor which had been given
by the caller earlier.
---
 src/evotorch/neuroevolution/net/vecrl.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/evotorch/neuroevolution/net/vecrl.py b/src/evotorch/neuroevolution/net/vecrl.py
index 2e91276..1f4e39c 100644
--- a/src/evotorch/neuroevolution/net/vecrl.py
+++ b/src/evotorch/neuroevolution/net/vecrl.py
@@ -1225,6 +1225,8 @@ class Policy:
             if indices is None:
                 self.__parameters = parameters
             else:
+                # The stored tensor might belong to the caller, therefore we work on a clone of it.
+                self.__parameters = self.__parameters.clone()
                 self.__parameters[indices] = parameters
 
         if reset:
-- 
2.43.0


From c8ed56f43a318d195ff213e6f2d531b17e0f8251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:16:54 +0000
Subject: [PATCH 73/79] fix: reset the modules contained by a StatefulModule

Resetting a StatefulModule did not reset the modules within it. The clock of
a LocomotorNet was therefore carried over from one episode to the next one,
and from one solution to the next one.
---
 src/evotorch/neuroevolution/net/statefulmodule.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/evotorch/neuroevolution/net/statefulmodule.py b/src/evotorch/neuroevolution/net/statefulmodule.py
index 40eae87..5455898 100644
--- a/src/evotorch/neuroevolution/net/statefulmodule.py
+++ b/src/evotorch/neuroevolution/net/statefulmodule.py
@@ -85,6 +85,11 @@ class StatefulModule(nn.Module):
         """
         self._hidden = None
 
+        # The contained modules might have their own states (e.g. the clock of a LocomotorNet).
+        for module in self.wrapped_module.modules():
+            if hasattr(module, "reset"):
+                module.reset()
+
 
 def ensure_stateful(net: nn.Module) -> StatefulModule:
     """
-- 
2.43.0


From f421181472965c05c76a56e4817708af5f2a2c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:20:59 +0000
Subject: [PATCH 74/79] fix: make networks which do not remember earlier
 evaluations

make_net, and therefore also to_policy of GymNE, copied the network of the
problem together with the state in which the last evaluation had left it.
This concerns networks given as StatefulModule and the clock of LocomotorNet.
---
 src/evotorch/neuroevolution/neproblem.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/evotorch/neuroevolution/neproblem.py b/src/evotorch/neuroevolution/neproblem.py
index 3bd6119..99d99d1 100644
--- a/src/evotorch/neuroevolution/neproblem.py
+++ b/src/evotorch/neuroevolution/neproblem.py
@@ -335,6 +335,8 @@ class NEProblem(BaseNEProblem):
             parameters = self.as_tensor(parameters)
         with torch.no_grad():
             net = deepcopy(self.parameterize_net(parameters))
+        # The new network must not inherit the memory of the earlier evaluations
+        ensure_stateful(net).reset()
         return net
 
     def parameterize_net(self, parameters: torch.Tensor) -> nn.Module:
-- 
2.43.0


From 11c6127dfad4d18e2eecb958babd8a3281a57041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:20:59 +0000
Subject: [PATCH 75/79] fix: report an invalid alive_bonus_schedule of VecGymNE

The error message referred to an attribute which does not exist yet, so that
an AttributeError was raised instead of the explanation.
---
 src/evotorch/neuroevolution/vecgymne.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/neuroevolution/vecgymne.py b/src/evotorch/neuroevolution/vecgymne.py
index 8b4a2fe..45d00bf 100644
--- a/src/evotorch/neuroevolution/vecgymne.py
+++ b/src/evotorch/neuroevolution/vecgymne.py
@@ -390,8 +390,8 @@ class VecGymNE(BaseNEProblem):
                 # `alive_bonus_schedule` sequences with unrecognized lengths trigger an error.
                 raise ValueError(
                     f"Received invalid number elements as the alive bonus schedule."
-                    f" Expected 2 or 3 items, but got these: {self._alive_bonus_schedule}"
-                    f" (having a length of {len(self._alive_bonus_schedule)})."
+                    f" Expected 2 or 3 items, but got these: {alive_bonus_schedule}"
+                    f" (having a length of {len(alive_bonus_schedule)})."
                 )
 
         # If `action_noise_stdev` is specified, store it.
-- 
2.43.0


From 96a1e302ab1eb8916b84d62bb633fd7df9c0d2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:44:49 +0000
Subject: [PATCH 76/79] fix: let the status of IPOP be read when the inner
 search has no population

Distribution-based algorithms have no population before their first step.
Reading the status of IPOP, as the loggers do, failed with an AttributeError
before the first step and after each restart.
---
 src/evotorch/algorithms/restarter/modify_restart.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/evotorch/algorithms/restarter/modify_restart.py b/src/evotorch/algorithms/restarter/modify_restart.py
index 47c6599..fbc3e30 100644
--- a/src/evotorch/algorithms/restarter/modify_restart.py
+++ b/src/evotorch/algorithms/restarter/modify_restart.py
@@ -59,7 +59,9 @@ class IPOP(ModifyingRestart):
 
     def _search_algorithm_terminated(self) -> bool:
         # Additional check on standard deviation of fitnesses of population
-        if self.search_algorithm.population.evals.std() < self.min_fitness_stdev:
+        # (an algorithm which has just been started might not have its population yet)
+        population = self.search_algorithm.population
+        if population is not None and population.evals.std() < self.min_fitness_stdev:
             return True
         return super()._search_algorithm_terminated()
 
-- 
2.43.0


From e8c892929d820eb454a6a77eee3e44c5598fee4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:44:49 +0000
Subject: [PATCH 77/79] fix: keep the operators of IPOP bound to its problem
 after a restart

The arguments of the inner search were copied deeply. With a genetic
algorithm, the operators among the arguments then belonged to a copy of the
problem, with a copy of its random number generator.
---
 src/evotorch/algorithms/restarter/modify_restart.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/algorithms/restarter/modify_restart.py b/src/evotorch/algorithms/restarter/modify_restart.py
index fbc3e30..514e4c5 100644
--- a/src/evotorch/algorithms/restarter/modify_restart.py
+++ b/src/evotorch/algorithms/restarter/modify_restart.py
@@ -12,7 +12,6 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
-from copy import deepcopy
 from typing import Type
 
 from .restart import Restart
@@ -68,7 +67,8 @@ class IPOP(ModifyingRestart):
     def _modify_algorithm_args(self) -> None:
         # Only modify arguments if this isn't the first restart
         if self.num_restarts >= 1:
-            new_args = deepcopy(self._algorithm_args)
+            # (a shallow copy, because the arguments might contain operators bound to the problem)
+            new_args = dict(self._algorithm_args)
             # Multiply population size
             new_args["popsize"] = int(self.popsize_multiplier * len(self.search_algorithm.population))
             self._algorithm_args = new_args
-- 
2.43.0


From ca529d3dda1168d4ee4564c735f5acd8160f4774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:44:49 +0000
Subject: [PATCH 78/79] fix: ignore the evaluation data in the restart
 condition of IPOP

The standard deviation was computed over the fitnesses together with the
evaluation data which is not fitness.
---
 src/evotorch/algorithms/restarter/modify_restart.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/algorithms/restarter/modify_restart.py b/src/evotorch/algorithms/restarter/modify_restart.py
index 514e4c5..2519c66 100644
--- a/src/evotorch/algorithms/restarter/modify_restart.py
+++ b/src/evotorch/algorithms/restarter/modify_restart.py
@@ -60,8 +60,10 @@ class IPOP(ModifyingRestart):
         # Additional check on standard deviation of fitnesses of population
         # (an algorithm which has just been started might not have its population yet)
         population = self.search_algorithm.population
-        if population is not None and population.evals.std() < self.min_fitness_stdev:
-            return True
+        if population is not None:
+            fitnesses = population.evals[:, : len(self.problem.senses)]
+            if fitnesses.std() < self.min_fitness_stdev:
+                return True
         return super()._search_algorithm_terminated()
 
     def _modify_algorithm_args(self) -> None:
-- 
2.43.0


From c72f4730923db31ebf8bd9aec75a051512896749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:54:35 +0000
Subject: [PATCH 79/79] fix: let a SupervisedNE problem be copied after its
 first evaluation

The iterator over the minibatches can be neither copied nor pickled. Cloning
or pickling the problem (or a search working on it) failed once a solution had
been evaluated.
---
 src/evotorch/neuroevolution/supervisedne.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/evotorch/neuroevolution/supervisedne.py b/src/evotorch/neuroevolution/supervisedne.py
index 9366e3b..4bfe9f2 100644
--- a/src/evotorch/neuroevolution/supervisedne.py
+++ b/src/evotorch/neuroevolution/supervisedne.py
@@ -216,6 +216,11 @@ class SupervisedNE(NEProblem):
         self._common_minibatch = common_minibatch
         self._current_minibatches: Optional[list] = None
 
+    @property
+    def _nonserialized_attribs(self) -> List[str]:
+        # The iterator of a DataLoader cannot be copied or pickled
+        return super()._nonserialized_attribs + ["dataloader_iterator"]
+
     def _make_dataloader(self) -> DataLoader:
         """
         Make a new DataLoader.
-- 
2.43.0

