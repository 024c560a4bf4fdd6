From ba90042b7a37fa72e2d5c10e6dc1695bc59bae92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:15 +0000
Subject: [PATCH 01/40] fix: replace np.in1d, which numpy removed, with np.isin

AdjacencyList.roots / leaves, partition_descendants and clusters raised
AttributeError on current numpy.
---
 graphicle/data.py   | 4 ++--
 graphicle/select.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index e35b554..d358d93 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -2545,7 +2545,7 @@ class AdjacencyList(base.AdjacencyBase):
         """
         in_degree = self._sparse_unsigned.sum(axis=0)
         zero_idxs = np.flatnonzero(in_degree == 0)
-        root_mask = np.in1d(self._sparse_unsigned.row, zero_idxs)
+        root_mask = np.isin(self._sparse_unsigned.row, zero_idxs)
         return MaskArray(root_mask)
 
     @property
@@ -2556,7 +2556,7 @@ class AdjacencyList(base.AdjacencyBase):
         """
         out_degree = self._sparse_unsigned.sum(axis=1)
         zero_idxs = np.flatnonzero(out_degree == 0)
-        leaf_mask = np.in1d(self._sparse_unsigned.col, zero_idxs)
+        leaf_mask = np.isin(self._sparse_unsigned.col, zero_idxs)
         return MaskArray(leaf_mask)
 
     @property
diff --git a/graphicle/select.py b/graphicle/select.py
index fd03252..c2a8a3f 100644
--- a/graphicle/select.py
+++ b/graphicle/select.py
@@ -416,7 +416,7 @@ def _partition_vertex(
     hadron_pmu = pmu[final_from_vtx]
     dist = dist_strat(parton_pmu, hadron_pmu)
     alloc = np.argmin(dist, axis=0)
-    final_from_hard = np.in1d(alloc, np.flatnonzero(mask[pcls_in]))
+    final_from_hard = np.isin(alloc, np.flatnonzero(mask[pcls_in]))
     mask.data[final_from_vtx] = final_from_hard
     return mask
 
-- 
2.43.0


From d0087ac5bf28d296dc00860ba0735508fc69aae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:15 +0000
Subject: [PATCH 02/40] fix: any_overlap used a MaskGroup attribute which does
 not exist

---
 graphicle/select.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/graphicle/select.py b/graphicle/select.py
index c2a8a3f..eda47b6 100644
--- a/graphicle/select.py
+++ b/graphicle/select.py
@@ -938,10 +938,9 @@ def any_overlap(masks: gcl.MaskGroup[MaskType]) -> bool:
         ``True`` if at least two ``MaskArrays`` in ``masks`` have at
         least one ``True`` element in the same location.
     """
-    combos = it.combinations(masks.dict.values(), 2)
-    pair_checks = map(np.bitwise_and, *zip(*combos))
-    overlaps: bool = np.bitwise_or.reduce(tuple(pair_checks), axis=None)
-    return overlaps
+    datas = map(op.attrgetter("data"), masks.values())
+    combos = it.combinations(datas, 2)
+    return any(np.any(mask_1 & mask_2) for mask_1, mask_2 in combos)
 
 
 def centroid_prune(
-- 
2.43.0


From 3b60919f4329d301b2654b0263bcaed1cde506ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:15 +0000
Subject: [PATCH 03/40] fix: soft_hard_axis returned latitude in place of
 inclination

---
 graphicle/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphicle/transform.py b/graphicle/transform.py
index b812f31..a27bac9 100644
--- a/graphicle/transform.py
+++ b/graphicle/transform.py
@@ -49,7 +49,7 @@ def _angles_to_axis(angles: SphericalAngle) -> SphericalAxis:
 def _axis_to_angles(axis: SphericalAxis) -> SphericalAngle:
     phi_polar = complex(axis.x, axis.y)
     pt, phi = cmath.polar(phi_polar)
-    theta_polar = complex(pt, axis.z)
+    theta_polar = complex(axis.z, pt)
     theta = cmath.phase(theta_polar)
     return SphericalAngle(theta=theta, phi=phi)
 
-- 
2.43.0


From f8c5a0e2eca3183ac19459d46f616ee0cc26f408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:15 +0000
Subject: [PATCH 04/40] fix: hard_descendants marked the wrong hard partons
 when filtered by target

---
 graphicle/select.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/graphicle/select.py b/graphicle/select.py
index eda47b6..53725ce 100644
--- a/graphicle/select.py
+++ b/graphicle/select.py
@@ -686,6 +686,7 @@ def hard_descendants(
     hard_mask = graph.hard_mask
     del hard_mask["incoming"]
     hard_graph = graph[hard_mask]
+    hard_idxs = np.flatnonzero(hard_mask)
     if target is not None:
         target_pdgs = set(target) if sign_sensitive else set(map(abs, target))
         target_mask = hard_graph.pdg.mask(
@@ -704,11 +705,12 @@ def hard_descendants(
             missing_str = ", ".join(map(str, missing_pdgs))
             raise ValueError(f"Missing PDGs in hard process: {missing_str}.")
         hard_graph = hard_graph[target_mask]
+        hard_idxs = hard_idxs[target_mask.data]
     pdg_keys = _pdgs_to_keys(hard_graph.pdg)
     pcl_out_vtxs = map(int, hard_graph.edges["dst"])
     descs = map(vertex_descendants, it.repeat(graph.adj), pcl_out_vtxs)
     group = gcl.MaskGroup(cl.OrderedDict(zip(pdg_keys, descs)), agg_op="or")
-    for key, idx in zip(pdg_keys, np.flatnonzero(hard_mask)):
+    for key, idx in zip(pdg_keys, hard_idxs):
         group[key][idx] = True
     return group
 
-- 
2.43.0


From 8adf308bc92f21b4b8dd010ed83c15bba0341507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:16 +0000
Subject: [PATCH 05/40] fix: keep ColorArray two-dimensional when indexing a
 single element

---
 graphicle/data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/graphicle/data.py b/graphicle/data.py
index d358d93..8ecf0b8 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -1832,6 +1832,7 @@ class ColorArray(base.ArrayBase):
     _HANDLED_TYPES: ty.Tuple[ty.Type, ...] = field(init=False, repr=False)
 
     def __attrs_post_init__(self):
+        self._data = self._data.reshape(-1, 2)
         self.dtype = np.dtype(
             list(zip(("color", "anticolor"), it.repeat("<i4")))
         )
-- 
2.43.0


From 7cbeec03b765572899440042da5e5b0979169c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:16 +0000
Subject: [PATCH 06/40] fix: from_spherical_uniform swapped longitudinal and
 transverse components

Momenta were confined to z >= 0, and were not uniform over the sphere.
---
 graphicle/data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index 8ecf0b8..8d8f957 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -1408,7 +1408,7 @@ class MomentumArray(base.ArrayBase):
         theta_polar = p_mag * np.exp(
             1.0j * np.arccos(1.0 - 2.0 * rng.random(size, dtype=np.float64))
         )
-        phi_polar = theta_polar.real * np.exp(
+        phi_polar = theta_polar.imag * np.exp(
             1.0j * rng.uniform(-np.pi, np.pi, size)
         )
         return cls(
@@ -1416,7 +1416,7 @@ class MomentumArray(base.ArrayBase):
                 [
                     phi_polar.real.reshape(-1, 1),
                     phi_polar.imag.reshape(-1, 1),
-                    theta_polar.imag.reshape(-1, 1),
+                    theta_polar.real.reshape(-1, 1),
                     energy.reshape(-1, 1),
                 ]
             )
-- 
2.43.0


From 00eacb1fef7e9b1a7b3980eb561b05ce9dcec221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:16 +0000
Subject: [PATCH 07/40] fix: PdgArray.mask ignored negative targets when sign
 insensitive

---
 graphicle/data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/graphicle/data.py b/graphicle/data.py
index 8d8f957..12605f6 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -1225,6 +1225,7 @@ class PdgArray(base.ArrayBase):
         data = self.data
         if sign_sensitive is False:
             data = np.abs(data, dtype=_types.int)
+            target = np.abs(target)
         return MaskArray(
             np.isin(data, target, assume_unique=False, invert=blacklist)
         )
-- 
2.43.0


From ea1356b7787d55b153715c6b8642badabda7532e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:16 +0000
Subject: [PATCH 08/40] fix: from_lhe_event overwrote the status codes of the
 event passed in

---
 graphicle/data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/graphicle/data.py b/graphicle/data.py
index 12605f6..5db987f 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -2334,6 +2334,7 @@ class ParticleSet(base.ParticleBase):
         props = ("pdg", "pmu", "color", "helicity", "status")
         pcls = cls.from_numpy(**{name: getattr(event, name) for name in props})
         pcls.final = MaskArray(np.zeros(len(pcls), dtype=np.bool_))
+        pcls.status = pcls.status.copy()
         status_map = {-1: -21, 1: -23, -2: -22, 2: -22, 3: -22, -9: -12}
         for old_code, new_code in status_map.items():
             pcls.status.data[pcls.status.data == old_code] = new_code
-- 
2.43.0


From 72e1dfc518caf2b4080388675ce2434dbadfcdf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:46 +0000
Subject: [PATCH 09/40] fix: arg_closest corrupted candidate rapidities and
 failed for equal candidates

The cached rapidity array of the candidates, which callers may hold, was used
as scratch space. A single candidate, or candidates of equal pt or distance,
raised ZeroDivisionError.
---
 graphicle/calculate.py | 8 +++++---
 graphicle/select.py    | 1 -
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/graphicle/calculate.py b/graphicle/calculate.py
index d13c1d1..3d7c180 100644
--- a/graphicle/calculate.py
+++ b/graphicle/calculate.py
@@ -924,15 +924,17 @@ def _assignment_cost(
     xy_pol_2: base.ComplexVector,
 ) -> base.DoubleVector:
     dist_matrix = _delta_R(rapidity_1, rapidity_2, xy_pol_1, xy_pol_2)
-    pt_2 = rapidity_2  # recycle memory buffer for transverse momenta
+    pt_2 = np.empty_like(rapidity_2)
     for pol_idx, pol_val in enumerate(xy_pol_2):
         pt_2[pol_idx] = abs(pol_val)
-    var_pt_recip = 1.0 / np.var(pt_2)
+    var_pt = np.var(pt_2)
+    var_pt_recip = 1.0 / var_pt if var_pt > 0.0 else 0.0
     num_partons = dist_matrix.shape[0]
     for parton_idx in nb.prange(num_partons):
         row = dist_matrix[parton_idx, :]
         pt_1_val = abs(xy_pol_1[parton_idx])
-        var_dR_recip = 1.0 / np.var(row)
+        var_dR = np.var(row)
+        var_dR_recip = 1.0 / var_dR if var_dR > 0.0 else 0.0
         for jet_idx, (dR_val, pt_2_val) in enumerate(zip(row, pt_2)):
             dpt = pt_1_val - pt_2_val
             dR_cost = math.expm1(-0.5 * var_dR_recip * dR_val * dR_val)
diff --git a/graphicle/select.py b/graphicle/select.py
index 53725ce..3c50a46 100644
--- a/graphicle/select.py
+++ b/graphicle/select.py
@@ -1230,7 +1230,6 @@ def arg_closest(
             focus._xy_pol,
             candidate._xy_pol,
         )
-    del candidate.rapidity  # inplace operation above invalidates cache
     _, idxs = opt.linear_sum_assignment(cost_matrix)
     return idxs.tolist()
 
-- 
2.43.0


From f900a44b70b13da35931aa23b7c92a753e91bb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:46 +0000
Subject: [PATCH 10/40] fix: AdjacencyList lost its weights when copied or
 subscripted

---
 graphicle/data.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index 5db987f..90db6e2 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -2480,11 +2480,14 @@ class AdjacencyList(base.AdjacencyBase):
     def __getitem__(self, key) -> "AdjacencyList":
         if isinstance(key, base.MaskBase):
             key = key.data
-        return self.__class__(self._data[key].reshape(-1, 2))
+        weights = self.weights
+        if len(weights) != 0:
+            weights = weights[key]
+        return self.__class__(self._data[key].reshape(-1, 2), weights)
 
     def copy(self) -> "AdjacencyList":
         """Copies the underlying data into a new AdjacencyList instance."""
-        return self.__class__(self._data.copy())
+        return self.__class__(self._data.copy(), self.weights.copy())
 
     @fn.cached_property
     def _edge_relabel(self) -> base.IntVector:
-- 
2.43.0


From e1f514ab4c0da1262679203459de4b83d30c7393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:46 +0000
Subject: [PATCH 11/40] fix: comparing an AdjacencyList, or a structured
 ndarray, raised ValueError

---
 graphicle/data.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index 90db6e2..fdf71ab 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -242,10 +242,10 @@ def _array_eq_prep(
     """
     other_data = other
     dtype = instance.data.dtype
-    if isinstance(other, base.ArrayBase):
-        other_data = other.data
+    if isinstance(other, (base.ArrayBase, base.AdjacencyBase)):
+        other_data = other.data  # type: ignore
     elif (dtype.type == np.void) and not (
-        isinstance(other, np.ndarray) and (other.dtype == np.void)
+        isinstance(other, np.ndarray) and (other.dtype.type == np.void)
     ):
         dt_set = set(map(op.itemgetter(1), dtype.descr))
         assert len(dt_set) == 1
-- 
2.43.0


From fb98d5810bd65780326b0d0afae7baaae7463568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:46 +0000
Subject: [PATCH 12/40] fix: comparing a MaskGroup against other masks raised
 TypeError

---
 graphicle/data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index fdf71ab..a7597a2 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -618,7 +618,7 @@ def _mask_eq(mask1: base.MaskLike, mask2: base.MaskLike) -> MaskArray:
     shape1, shape2 = np.shape(mask1), np.shape(mask2)
     if shape1 != shape2:
         raise ValueError(f"Incompatible mask shapes {shape1} and {shape2}.")
-    return MaskArray(np.equal(mask1, mask2))
+    return MaskArray(np.equal(np.asarray(mask1), np.asarray(mask2)))
 
 
 def _mask_neq(mask1: base.MaskLike, mask2: base.MaskLike) -> MaskArray:
@@ -639,7 +639,7 @@ def _mask_neq(mask1: base.MaskLike, mask2: base.MaskLike) -> MaskArray:
     shape1, shape2 = np.shape(mask1), np.shape(mask2)
     if shape1 != shape2:
         raise ValueError(f"Incompatible mask shapes {shape1} and {shape2}.")
-    return MaskArray(np.not_equal(mask1, mask2))
+    return MaskArray(np.not_equal(np.asarray(mask1), np.asarray(mask2)))
 
 
 _IN_MASK_DICT = ty.Mapping[
-- 
2.43.0


From 802098a79c746368bf6d268cd6c31c45c8bc5e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:46 +0000
Subject: [PATCH 13/40] fix: knn_adj gave outward edges by column for row=True,
 and failed for all neighbours

---
 graphicle/matrix.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/graphicle/matrix.py b/graphicle/matrix.py
index 6f57f35..96af907 100644
--- a/graphicle/matrix.py
+++ b/graphicle/matrix.py
@@ -130,11 +130,11 @@ def knn_adj(
     If weighted is ``False``, the returned adjacency matrix will be
     boolean.
     """
-    axis = 0  # calculate everything row-wise
+    axis = 1  # calculate everything row-wise
     if self_loop is False:
         k = k + 1  # for when we get rid of self-neighbours
-    knn_idxs = np.argpartition(matrix, kth=k, axis=axis)
-    near = knn_idxs[:k]
+    knn_idxs = np.argpartition(matrix, kth=k - 1, axis=axis)
+    near = knn_idxs[:, :k]
     edge_weights = 1
     if weighted is True:
         if dtype is None:
-- 
2.43.0


From 262b284994911dd134164e70d6fbf589bd0965d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:32 +0000
Subject: [PATCH 14/40] fix: shift_eta did not converge for massive momenta

The correction compared a target in pseudorapidity against the true rapidity
of the resultant, so iterations settled on the wrong frame.
---
 graphicle/data.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index a7597a2..8474343 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -1695,16 +1695,20 @@ class MomentumArray(base.ArrayBase):
             return pmu
         eta_mid, _ = calculate.resultant_coords(pmu, pseudo=True)
         target = eta_mid + shift
-        converged = False
+        is_converged = fn.partial(
+            math.isclose, target, rel_tol=0.0, abs_tol=abs_tol
+        )
         for _ in range(max_corrections):
-            if math.isclose(eta_mid, target, rel_tol=0.0, abs_tol=abs_tol):
-                converged = True
+            if is_converged(eta_mid):
                 break
-            rap_mid, _ = calculate.resultant_coords(pmu, pseudo=False)
-            correction = target - rap_mid
-            pmu = pmu.shift_rapidity(correction)
+            resultant = np.sum(pmu, axis=0)
+            # longitudinal boosts leave pt and mt of the resultant unchanged
+            sinh_rap = np.sinh(target) * resultant.pt / resultant.mass_t
+            rap_target = np.arcsinh(sinh_rap).item()
+            rap_mid = resultant.rapidity.item()
+            pmu = pmu.shift_rapidity(rap_target - rap_mid)
             eta_mid, _ = calculate.resultant_coords(pmu, pseudo=True)
-        if converged is not True:
+        if not is_converged(eta_mid):
             warnings.warn(
                 f"Unable to converge within a tolerance of {abs_tol}.",
                 base.NumericalStabilityWarning,
-- 
2.43.0


From beab2843e604b26065dd6339624d5425d251f406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:32 +0000
Subject: [PATCH 15/40] fix: MomentumArray kept stale derived attributes after
 its data changed

---
 graphicle/data.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/graphicle/data.py b/graphicle/data.py
index 8474343..19b35db 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -211,6 +211,7 @@ def _array_ufunc(
         if not isinstance(x, instance._HANDLED_TYPES + (class_type,)):
             return NotImplemented
 
+    mutated = inputs[:1]
     # Defer to the implementation of the ufunc on unwrapped values.
     inputs = tuple(x._data if isinstance(x, class_type) else x for x in inputs)
     if out:
@@ -218,6 +219,10 @@ def _array_ufunc(
             x._data if isinstance(x, class_type) else x for x in out
         )
     result = op.methodcaller(method, *inputs, **kwargs)(ufunc)
+    # inplace operations invalidate anything derived from the old values
+    for x in out + (mutated if method == "at" else ()):  # type: ignore
+        if isinstance(x, MomentumArray):
+            x._clear_derived()
 
     if type(result) is tuple:
         # multiple return values
@@ -1443,6 +1448,25 @@ class MomentumArray(base.ArrayBase):
     @data.setter
     def data(self, values: npt.ArrayLike) -> None:
         self._data = values  # type: ignore
+        self._data = self._data.reshape(-1, 4)
+        self._clear_derived()
+
+    def _clear_derived(self) -> None:
+        """Drops cached attributes, which derive from stale momenta."""
+        for name in (
+            "_zt_pol",
+            "_spatial_mag",
+            "eta",
+            "rapidity",
+            "phi",
+            "theta",
+            "mass",
+            "mass_t",
+        ):
+            try:
+                delattr(self, name)
+            except AttributeError:
+                continue
 
     @classmethod
     def __array_wrap__(cls, array: base.AnyVector) -> "MomentumArray":
-- 
2.43.0


From 0412894043986cdab42802caedf4494a5256e523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:32 +0000
Subject: [PATCH 16/40] fix: hierarchy included the decaying parent in the
 masks of its children

---
 graphicle/select.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/graphicle/select.py b/graphicle/select.py
index 3c50a46..109575b 100644
--- a/graphicle/select.py
+++ b/graphicle/select.py
@@ -821,7 +821,7 @@ def hierarchy(
         hard_final_idxs = np.flatnonzero(hard_final)
         for key, idx in zip(hard_final_keys, hard_final_idxs):
             desc[key].data[idx] = True
-    masks = _make_tree(hard, roots, hard, desc, graph.adj)
+    masks = _make_tree(hard, roots, hard, desc)
     return masks
 
 
@@ -830,7 +830,6 @@ def _make_tree(
     roots: ty.Set[str],
     hard: ty.Dict[str, ty.Tuple[str, ...]],
     desc: gcl.MaskGroup[gcl.MaskArray],
-    adj: gcl.AdjacencyList,
 ) -> gcl.MaskGroup[MaskType]:
     """Recursive function to convert a flat representation of the hard
     process tree into a nested ``MaskGroup`` of ``MaskGroup`` object.
@@ -853,26 +852,19 @@ def _make_tree(
     branch = gcl.MaskGroup(agg_op="or")  # type: ignore
     if isinstance(flat, dict):
         for key, nest in filter(lambda item: item[0] in roots, flat.items()):
-            branch[key] = _make_tree(nest, roots, hard, desc, adj)
+            branch[key] = _make_tree(nest, roots, hard, desc)
             branch[key]["latent"] = (  # type: ignore
                 branch[key].data != desc[key].data
             )
     else:
         for parton in flat:
             if parton in hard:
-                branch[parton] = _make_tree(
-                    hard[parton], roots, hard, desc, adj
-                )
+                branch[parton] = _make_tree(hard[parton], roots, hard, desc)
                 branch[parton]["latent"] = (  # type: ignore
                     branch[parton].data != desc[parton].data
                 )
             else:
-                mask = desc[parton]
-                in_edge = adj.edges["src"][mask][0]
-                initial_parton_mask = adj.edges["dst"] == in_edge
-                if np.sum(initial_parton_mask) == 1:
-                    mask.data[initial_parton_mask] = True
-                branch[parton] = mask
+                branch[parton] = desc[parton]
     return branch
 
 
-- 
2.43.0


From a699b9aa5ebf8d51be9fa652099e7f3ab617ee56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:32 +0000
Subject: [PATCH 17/40] fix: hierarchy lost hard partons outside of the
 intermediate decays

---
 graphicle/select.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/graphicle/select.py b/graphicle/select.py
index 109575b..63a7fa2 100644
--- a/graphicle/select.py
+++ b/graphicle/select.py
@@ -822,6 +822,9 @@ def hierarchy(
         for key, idx in zip(hard_final_keys, hard_final_idxs):
             desc[key].data[idx] = True
     masks = _make_tree(hard, roots, hard, desc)
+    # partons outside of any decay chain, eg. prompt jets
+    for name in filter(lambda name: name not in keys | vals, names):
+        masks[name] = desc[name]
     return masks
 
 
-- 
2.43.0


From 2b6522cda2151582d16ee2fecd10ee8bc46bd1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:32 +0000
Subject: [PATCH 18/40] fix: event shapes raised ZeroDivisionError for momenta
 at rest or on the axis

---
 graphicle/calculate.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/graphicle/calculate.py b/graphicle/calculate.py
index 3d7c180..5e269b7 100644
--- a/graphicle/calculate.py
+++ b/graphicle/calculate.py
@@ -432,6 +432,8 @@ def aggregate_momenta(
 @nb.njit("float64(float64, float64, float64)", cache=True)
 def _three_norm(x: float, y: float, z: float) -> float:
     max_component = max(abs(x), abs(y), abs(z))
+    if max_component == 0.0:
+        return 0.0
     max_recip = 1.0 / max_component
     x *= max_recip
     y *= max_recip
@@ -672,6 +674,8 @@ def _spherocity_with_grad(
         cross_y = z * ax_x - x * ax_z
         cross_z = x * ax_y - y * ax_x
         cross_norm = _three_norm(cross_x, cross_y, cross_z)
+        if cross_norm == 0.0:
+            continue
         cross_norm_sum += cross_norm
         # accumulate gradient contributions
         x_sq, y_sq = x * x, y * y
@@ -806,6 +810,8 @@ def _c_parameter(momenta: base.VoidVector) -> float:
             x_j, y_j, z_j = pmu_j["x"], pmu_j["y"], pmu_j["z"]
             norm_j = _three_norm(x_j, y_j, z_j)
             norm_prod = norm_i * norm_j
+            if norm_prod == 0.0:
+                continue
             i_dot_j = (x_i * x_j) + (y_i * y_j) + (z_i * z_j)
             output += 2.0 * (norm_prod - (i_dot_j * i_dot_j / norm_prod))
     return 1.5 * output / (norm_sum * norm_sum)
-- 
2.43.0


From 98d2d3f3e06652b8e443e8c4ba6c591670ebb669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:50 +0000
Subject: [PATCH 19/40] fix: in-place arithmetic returned a new container,
 leaving aliases with stale derived values

---
 graphicle/data.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/graphicle/data.py b/graphicle/data.py
index 19b35db..b66232d 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -224,6 +224,9 @@ def _array_ufunc(
         if isinstance(x, MomentumArray):
             x._clear_derived()
 
+    if len(out) == 1 and isinstance(out[0], class_type):
+        # numpy convention: the object passed as output is returned
+        return out[0]
     if type(result) is tuple:
         # multiple return values
         return tuple(class_type(x) for x in result)
-- 
2.43.0


From 69e4db9df028fe9ba681064b79f032e51c9fb799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:21 +0000
Subject: [PATCH 20/40] fix: containers built from read-only arrays failed in
 the compiled kernels

---
 graphicle/data.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index b66232d..9bec900 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -397,13 +397,15 @@ def _row_contiguous(func: ty.Callable[..., base.AnyVector]):
     interfacing with a vendor which provides numpy arrays which are
     column-contiguous, such as pandas, the assumed row-layout views will
     fail. In these cases, the data will be copied into row-contiguous
-    arrays before returning. If already row-contiguous, the original
-    array is returned with no copying.
+    arrays before returning. If already row-contiguous, and writeable,
+    the original array is returned with no copying.
     """
 
     @fn.wraps(func)
     def inner(*args, **kwargs):
-        return np.ascontiguousarray(func(*args, **kwargs))
+        array = np.ascontiguousarray(func(*args, **kwargs))
+        # read-only buffers match none of the compiled kernels' signatures
+        return array if array.flags.writeable else array.copy()
 
     return inner
 
-- 
2.43.0


From c0ede299344d7139018d6414fe99efc4379ed8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:26 +0000
Subject: [PATCH 21/40] fix: arrays made from a container dangled once its data
 was replaced

---
 graphicle/data.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index 9bec900..7a909b1 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -161,6 +161,14 @@ class VertexPair(ty.NamedTuple):
     dst: int
 
 
+def _array_interface(array: base.AnyVector) -> ty.Dict[str, ty.Any]:
+    """Array interface which exposes the buffer itself, rather than its
+    address, so that arrays made from it keep the memory alive, even if
+    the data of the wrapping object is later replaced.
+    """
+    return {**array.__array_interface__, "data": array}
+
+
 # from https://numpy.org/doc/stable/reference/generated/numpy.lib.mixins
 # .NDArrayOperatorsMixin.html
 def _array_ufunc(
@@ -509,7 +517,7 @@ class MaskArray(base.MaskBase, base.ArrayBase):
 
     @property
     def __array_interface__(self) -> ty.Dict[str, ty.Any]:
-        return self._data.__array_interface__
+        return _array_interface(self._data)
 
     def __array__(self) -> base.BoolVector:
         return self._data
@@ -1151,7 +1159,7 @@ class PdgArray(base.ArrayBase):
 
     @property
     def __array_interface__(self) -> ty.Dict[str, ty.Any]:
-        return self._data.__array_interface__
+        return _array_interface(self._data)
 
     @classmethod
     def __array_wrap__(cls, array: base.IntVector) -> "PdgArray":
@@ -1435,7 +1443,7 @@ class MomentumArray(base.ArrayBase):
 
     @property
     def __array_interface__(self) -> ty.Dict[str, ty.Any]:
-        return self._data.__array_interface__
+        return _array_interface(self._data)
 
     def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
         return _array_ufunc(self, ufunc, method, *inputs, **kwargs)
@@ -1874,7 +1882,7 @@ class ColorArray(base.ArrayBase):
 
     @property
     def __array_interface__(self) -> ty.Dict[str, ty.Any]:
-        return self._data.__array_interface__
+        return _array_interface(self._data)
 
     def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
         return _array_ufunc(self, ufunc, method, *inputs, **kwargs)
@@ -1976,7 +1984,7 @@ class HelicityArray(base.ArrayBase):
 
     @property
     def __array_interface__(self) -> ty.Dict[str, ty.Any]:
-        return self._data.__array_interface__
+        return _array_interface(self._data)
 
     def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
         return _array_ufunc(self, ufunc, method, *inputs, **kwargs)
@@ -2070,7 +2078,7 @@ class StatusArray(base.ArrayBase):
 
     @property
     def __array_interface__(self) -> ty.Dict[str, ty.Any]:
-        return self._data.__array_interface__
+        return _array_interface(self._data)
 
     def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
         return _array_ufunc(self, ufunc, method, *inputs, **kwargs)
@@ -2475,7 +2483,7 @@ class AdjacencyList(base.AdjacencyBase):
 
     @property
     def __array_interface__(self) -> ty.Dict[str, ty.Any]:
-        return self._data.__array_interface__
+        return _array_interface(self._data)
 
     def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
         return _array_ufunc(self, ufunc, method, *inputs, **kwargs)
-- 
2.43.0


From d7aa3d0db9b7e58cfd39eddafa6edecc7fc03bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:48 +0000
Subject: [PATCH 22/40] fix: spherocity gradient used x*y in place of x*z

The inclination component of the analytic gradient was wrong, so the
optimiser stopped far from the minimum for generic events.
---
 graphicle/calculate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphicle/calculate.py b/graphicle/calculate.py
index 5e269b7..6e5e605 100644
--- a/graphicle/calculate.py
+++ b/graphicle/calculate.py
@@ -687,7 +687,7 @@ def _spherocity_with_grad(
             - sin_2theta * ((y * z * cos_phi) - (x * z * sin_phi))
         )
         grad_theta_sum += cross_norm_recip * (
-            -2.0 * cos_2theta * ((x * y * cos_phi) + (y * z * sin_phi))
+            -2.0 * cos_2theta * ((x * z * cos_phi) + (y * z * sin_phi))
             - 0.5
             * sin_2theta
             * (
-- 
2.43.0


From f1ed141e6f24e2297ca4a34ef43708cb9467b3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:55 +0000
Subject: [PATCH 23/40] fix: spherocity value is the one at the returned axis

When the line search of the optimiser terminates abnormally, scipy's
reported function value is not that of the point it returns.
---
 graphicle/calculate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphicle/calculate.py b/graphicle/calculate.py
index 6e5e605..326637a 100644
--- a/graphicle/calculate.py
+++ b/graphicle/calculate.py
@@ -793,7 +793,8 @@ def spherocity(
         jac=True,
         args=(pmu.data,),
     )
-    sph_val = optim.fun
+    # optim.fun need not belong to optim.x after an abnormal line search
+    sph_val, _ = _spherocity_with_grad(optim.x, pmu.data)
     if return_axis:
         return sph_val, _angles_to_axis(optim.x)
     return sph_val
-- 
2.43.0


From 1fa4c7813ebcb3b59beb67234b02049596c1cde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:00 +0000
Subject: [PATCH 24/40] fix: jaccard_distance rejected read-only masks and
 weights

---
 graphicle/calculate.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/graphicle/calculate.py b/graphicle/calculate.py
index 326637a..25d8c01 100644
--- a/graphicle/calculate.py
+++ b/graphicle/calculate.py
@@ -916,6 +916,11 @@ def jaccard_distance(
         mask_1 = mask_1.data
     if not isinstance(mask_2, np.ndarray):
         mask_2 = mask_2.data
+    # the compiled routine is not specialised for read-only arrays
+    mask_1 = np.require(mask_1, requirements="W")
+    mask_2 = np.require(mask_2, requirements="W")
+    if weights is not None:
+        weights = np.require(weights, requirements="W")
     return _jaccard_distance(mask_1, mask_2, weights)
 
 
-- 
2.43.0


From 05e6727d34e33c8e069ef7fff996b9cc29356f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:32 +0000
Subject: [PATCH 25/40] fix: monte_carlo_tag mistook an empty white- or
 blacklist for none

An empty whitelist next to a blacklist turned the blacklist into a whitelist, and
an empty whitelist alone tagged every parton, where the documentation promises
ValueError and IndexError.
---
 graphicle/select.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/graphicle/select.py b/graphicle/select.py
index 63a7fa2..d9c6d22 100644
--- a/graphicle/select.py
+++ b/graphicle/select.py
@@ -1356,9 +1356,10 @@ def monte_carlo_tag(
     portion_mask = particles.status.hard_mask[portions].data
     hard_pmu = particles.pmu[portion_mask]
     hard_pdg = particles.pdg[portion_mask]
-    if blacklist and whitelist:
+    if (blacklist is not None) and (whitelist is not None):
         raise ValueError("Cannot simultaneously blacklist and whitelist.")
-    if list_ := (blacklist or whitelist):
+    list_ = blacklist if whitelist is None else whitelist
+    if list_ is not None:
         hard_pdg_ = hard_pdg
         if not sign_sensitive:
             hard_pdg_ = np.abs(hard_pdg_)
-- 
2.43.0


From b93a485076ff2436ac09ba09542cbcb91fd53ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:16 +0000
Subject: [PATCH 26/40] fix: fastjet_clusters failed on integer exponents other
 than -1, 0, 1

FastJet's overload took the integer for a recombination scheme.
---
 graphicle/select.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphicle/select.py b/graphicle/select.py
index d9c6d22..4eafae9 100644
--- a/graphicle/select.py
+++ b/graphicle/select.py
@@ -144,7 +144,7 @@ def fastjet_clusters(
         algo = fj.kt_algorithm
     else:
         algo = fj.genkt_algorithm
-        extra_param = (p_val,)
+        extra_param = (float(p_val),)
     jet_def = fj.JetDefinition(algo, radius, *extra_param)
     sequence = fj.ClusterSequence(pmu_ak, jet_def)
     jets = sequence.inclusive_jets(pt_cut)
-- 
2.43.0


From 9ca83b9054b6a36879eff5137e5b9bdb350b0a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:00 +0000
Subject: [PATCH 27/40] fix: printed MaskGroup dropped bracketed parts of names
 as console markup

---
 graphicle/data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index 7a909b1..c6eb548 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -59,6 +59,7 @@ from deprecation import deprecated
 from mcpid.lookup import PdgRecords
 from numpy.lib import recfunctions as rfn
 from rich.console import Console
+from rich.text import Text
 from rich.tree import Tree
 from scipy.sparse import coo_array, csr_array
 from tabulate import tabulate
@@ -770,7 +771,7 @@ class MaskGroup(base.MaskBase, ty.MutableMapping[str, MaskGeneric]):
         def make_tree(mask: "MaskGroup", branch: Tree) -> Tree:
             branch_copy = deepcopy(branch)
             for key, val in mask.items():
-                sub_branch = Tree(f"{key}")
+                sub_branch = Tree(Text(f"{key}"))
                 if isinstance(val, MaskGroup):
                     sub_branch = sub_branch.add(make_tree(val, sub_branch))
                 branch_copy.add(sub_branch)
-- 
2.43.0


From 482f106a3332c13eb7c641630ae56b9540f02488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:00 +0000
Subject: [PATCH 28/40] fix: table of a Graphicle without particle data showed
 no rows

---
 graphicle/data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphicle/data.py b/graphicle/data.py
index c6eb548..c0aa7ed 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -2769,6 +2769,8 @@ class Graphicle:
         headers, rows = self.particles._table_list()
         if not self.adj:
             return _table_repr(headers, rows, num_rows, html)
+        if not headers:
+            rows = it.repeat(())
         headers = headers + ("src", "dst")
         rows = map(lambda row, edge: row + edge, rows, self.adj)
         return _table_repr(headers, rows, num_rows, html)
-- 
2.43.0


From 60fc47fd91d8ac5e8454705817cddbda53b507d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:20 +0000
Subject: [PATCH 29/40] fix: ColorArray swapped colours and anticolours of
 structured data with fields in reverse order

---
 graphicle/data.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/graphicle/data.py b/graphicle/data.py
index c0aa7ed..39bc95d 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -120,6 +120,7 @@ _MOMENTUM_MAP = _map_invert(
 _MOMENTUM_ORDER = tuple("xyze")
 _EDGE_MAP = _map_invert({"src": {"in", "src"}, "dst": {"out", "dst"}})
 _EDGE_ORDER = ("src", "dst")
+_COLOR_ORDER = ("color", "anticolor")
 
 
 class MomentumElement(ty.NamedTuple):
@@ -447,6 +448,8 @@ def _array_field(dtype: npt.DTypeLike, num_cols: int = 1):
                 values = _reorder_pmu(values)
             elif (num_cols == 2) and (set(_EDGE_MAP.keys()) & set(names)):
                 values = _reorder_edges(values)
+            elif (num_cols == 2) and (set(names) == set(_COLOR_ORDER)):
+                values = values[list(_COLOR_ORDER)]
             values = rfn.structured_to_unstructured(values)
         array = np.asarray(values, dtype=dtype)
         shape = array.shape
-- 
2.43.0


From d3d63616ac8b24fa6b64b5550aaa422ca8811bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:14 +0000
Subject: [PATCH 30/40] fix: knn_adj counted coincident particles in place of
 the particle itself

---
 graphicle/matrix.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/graphicle/matrix.py b/graphicle/matrix.py
index 96af907..86bad38 100644
--- a/graphicle/matrix.py
+++ b/graphicle/matrix.py
@@ -133,7 +133,10 @@ def knn_adj(
     axis = 1  # calculate everything row-wise
     if self_loop is False:
         k = k + 1  # for when we get rid of self-neighbours
-    knn_idxs = np.argpartition(matrix, kth=k - 1, axis=axis)
+    # particles are nearest to themselves, even if others coincide with them
+    ranking = np.array(matrix, dtype=np.result_type(matrix, np.float32))
+    np.fill_diagonal(ranking, -np.inf)
+    knn_idxs = np.argpartition(ranking, kth=k - 1, axis=axis)
     near = knn_idxs[:, :k]
     edge_weights = 1
     if weighted is True:
-- 
2.43.0


From 4e6667040b0b7e79fecac0b5c178aa429ccc381a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:12 +0000
Subject: [PATCH 31/40] fix: pseudorapidity lost its precision in the forward
 regions

---
 graphicle/data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index 39bc95d..c30a501 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -1576,7 +1576,8 @@ class MomentumArray(base.ArrayBase):
         """
         with warnings.catch_warnings():
             warnings.simplefilter("ignore")
-            arr = np.arctanh(self.z / self._spatial_mag)
+            # arctanh(z / |p|) loses all precision in the forward regions
+            arr = np.arcsinh(self.z / self.pt)
         return arr.reshape(-1)
 
     @fn.cached_property
-- 
2.43.0


From a7103c19115ad005b12295408f22b8d73da031d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:32 +0000
Subject: [PATCH 32/40] fix: clustering coefficients stopped counting at 2^24
 links

---
 graphicle/calculate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphicle/calculate.py b/graphicle/calculate.py
index 25d8c01..0cb91cd 100644
--- a/graphicle/calculate.py
+++ b/graphicle/calculate.py
@@ -344,7 +344,7 @@ def _clust_coeffs(adj: base.BoolVector) -> base.FloatVector:
         if num_neibs < 2:
             coefs[node_idx] = 0.0
             continue
-        num_interlinks_x2 = np.sum(adj[neibs, :][:, neibs], dtype=np.float32)
+        num_interlinks_x2 = np.sum(adj[neibs, :][:, neibs], dtype=np.float64)
         coefs[node_idx] = num_interlinks_x2 / (num_neibs * (num_neibs - 1))
     return coefs
 
-- 
2.43.0


From 7061020415ead6f9c000b9c3ca18c66abda5e31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:49 +0000
Subject: [PATCH 33/40] fix: roots, leaves and matrices of an empty
 AdjacencyList raised ValueError

---
 graphicle/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index c30a501..a661182 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -2695,7 +2695,7 @@ class AdjacencyList(base.AdjacencyBase):
             are ``"dst"`` indices for ``AdjacencyList.edges``.
         """
         abs_edges = self._edge_relabel
-        size = np.max(abs_edges) + 1
+        size = np.max(abs_edges, initial=-1) + 1
         if data is None:
             data = np.sign(self.data["dst"]) == 1
         return coo_array(
-- 
2.43.0


From d9e9694ddef905f78cf894e80b999e6457112132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:02 +0000
Subject: [PATCH 34/40] fix: from_event raised KeyError for masks without a
 final entry

---
 graphicle/data.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index a661182..1e264fc 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -2818,7 +2818,11 @@ class Graphicle:
                 params[attr] = getattr(event, attr)
             except AttributeError:
                 if attr == "final" and hasattr(event, "masks"):
-                    params["final"] = event.masks["final"]
+                    # absent attributes are left empty
+                    try:
+                        params["final"] = event.masks["final"]
+                    except KeyError:
+                        continue
         return cls.from_numpy(**params)
 
     @classmethod
-- 
2.43.0


From fca910e7510553d9d10022d5ed3ce3373e90717c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:11 +0000
Subject: [PATCH 35/40] fix: momenta longitudinal up to rounding have infinite
 pseudorapidity

---
 graphicle/data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index 1e264fc..82117b4 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -1577,7 +1577,8 @@ class MomentumArray(base.ArrayBase):
         with warnings.catch_warnings():
             warnings.simplefilter("ignore")
             # arctanh(z / |p|) loses all precision in the forward regions
-            arr = np.arcsinh(self.z / self.pt)
+            longitudinal = self.pt < (ZERO_TOL * np.abs(self.z))
+            arr = np.arcsinh(self.z / np.where(longitudinal, 0.0, self.pt))
         return arr.reshape(-1)
 
     @fn.cached_property
-- 
2.43.0


From ee470c5d62bfac898566c1a69748f19760402bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:12 +0000
Subject: [PATCH 36/40] fix: integer axis angles raised TypeError in rotations
 and splittings

---
 graphicle/transform.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/graphicle/transform.py b/graphicle/transform.py
index a27bac9..b95b2ac 100644
--- a/graphicle/transform.py
+++ b/graphicle/transform.py
@@ -42,7 +42,9 @@ class SphericalAxis(ty.NamedTuple):
 
 
 def _angles_to_axis(angles: SphericalAngle) -> SphericalAxis:
-    axis = gcl.calculate._angles_to_axis(np.array([angles.phi, angles.theta]))
+    axis = gcl.calculate._angles_to_axis(
+        np.array([angles.phi, angles.theta], dtype=np.float64)
+    )
     return SphericalAxis(*axis.tolist())
 
 
-- 
2.43.0


From afa4897680b6504a1b97715b5978bf73a183f435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:12 +0000
Subject: [PATCH 37/40] fix: assigning one flat row to ColorArray.data broke
 its shape

---
 graphicle/data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/graphicle/data.py b/graphicle/data.py
index 82117b4..0cd7aa4 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -1917,6 +1917,7 @@ class ColorArray(base.ArrayBase):
     @data.setter
     def data(self, values: npt.ArrayLike) -> None:
         self._data = values  # type: ignore
+        self._data = self._data.reshape(-1, 2)
 
     @property
     def color(self) -> base.IntVector:
-- 
2.43.0


From b10b8438629d9f021d534ebb84f25b8b54e9858c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:12 +0000
Subject: [PATCH 38/40] fix: AdjacencyList from one flat edge broke its shape

---
 graphicle/data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/graphicle/data.py b/graphicle/data.py
index 0cd7aa4..ec6fda3 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -2485,6 +2485,7 @@ class AdjacencyList(base.AdjacencyBase):
     _HANDLED_TYPES: ty.Tuple[ty.Type, ...] = field(init=False, repr=False)
 
     def __attrs_post_init__(self):
+        self._data = self._data.reshape(-1, 2)
         self.dtype = np.dtype(list(zip(("src", "dst"), ("<i4",) * 2)))
         self._HANDLED_TYPES = (np.ndarray, nm.Number, cla.Sequence)
 
-- 
2.43.0


From bef49446125ecfc6165b674a421cb7b2a599e555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:12 +0000
Subject: [PATCH 39/40] fix: string of a MaskGroup cropped deep levels and
 wrapped long names

---
 graphicle/data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index ec6fda3..be7fe16 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -45,6 +45,7 @@ import itertools as it
 import math
 import numbers as nm
 import operator as op
+import sys
 import typing as ty
 import warnings
 from copy import deepcopy
@@ -783,7 +784,7 @@ class MaskGroup(base.MaskBase, ty.MutableMapping[str, MaskGeneric]):
         return make_tree(self, tree)
 
     def __str__(self) -> str:
-        console = Console(color_system=None)
+        console = Console(color_system=None, width=sys.maxsize)
         with console.capture() as capture:
             console.print(self)
         return capture.get()
-- 
2.43.0


From c9a47b97488cf85f4135d0e5214a2cf7a5507ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:16 +0000
Subject: [PATCH 40/40] fix: index and reversed of containers disagreed with
 their elements

---
 graphicle/base.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/graphicle/base.py b/graphicle/base.py
index 101f1d3..940a8f2 100644
--- a/graphicle/base.py
+++ b/graphicle/base.py
@@ -134,7 +134,24 @@ class EventInterface(ty.Protocol):
         ...
 
 
-class ArrayBase(ABC, cla.Sequence, np.lib.mixins.NDArrayOperatorsMixin):
+class _ElementSequence(cla.Sequence):
+    """Sequence whose searches agree with its iteration.
+
+    The mixin methods of ``Sequence`` subscript with integers, which
+    gives arrays of one element, whose comparison is elementwise.
+    """
+
+    def index(
+        self, value: ty.Any, start: int = 0, stop: ty.Optional[int] = None
+    ) -> int:
+        elems = list(self)
+        return elems.index(value, start, len(elems) if stop is None else stop)
+
+    def __reversed__(self) -> ty.Iterator[ty.Any]:
+        return reversed(list(self))
+
+
+class ArrayBase(ABC, _ElementSequence, np.lib.mixins.NDArrayOperatorsMixin):
     @abstractmethod
     def __init__(self, data: ty.Optional[AnyVector] = None) -> None:
         pass
@@ -213,7 +230,7 @@ class ParticleBase(ABC):
         pass
 
 
-class AdjacencyBase(ABC, cla.Sequence, np.lib.mixins.NDArrayOperatorsMixin):
+class AdjacencyBase(ABC, _ElementSequence, np.lib.mixins.NDArrayOperatorsMixin):
     @abstractmethod
     def __len__(self) -> int:
         pass
-- 
2.43.0

