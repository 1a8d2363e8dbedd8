From 62ea8f60cd0244e2e2b8014ae3719e5598a771f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:41 +0000
Subject: [PATCH 01/92] fix: write cached results atomically, so a failed or
 interrupted save keeps the cache usable

---
 surface_potential_analysis/util/decorators.py | 32 +++++++++++++++----
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/surface_potential_analysis/util/decorators.py b/surface_potential_analysis/util/decorators.py
index 23342c8..5b66efd 100644
--- a/surface_potential_analysis/util/decorators.py
+++ b/surface_potential_analysis/util/decorators.py
@@ -1,21 +1,38 @@
 from __future__ import annotations
 
 import datetime
+import os
 import pickle  # noqa: S403
-from collections.abc import Callable, Mapping
+import threading
+from collections.abc import Callable, Generator, Mapping
+from contextlib import contextmanager
 from functools import update_wrapper, wraps
-from typing import TYPE_CHECKING, Any, Generic, Literal, ParamSpec, TypeVar, overload
+from pathlib import Path
+from typing import IO, Any, Generic, Literal, ParamSpec, TypeVar, overload
 
 import numpy as np
 
-if TYPE_CHECKING:
-    from pathlib import Path
-
 _P = ParamSpec("_P")
 _R = TypeVar("_R")
 _RD = TypeVar("_RD", bound=Mapping[Any, Any])
 
 
+@contextmanager
+def _open_atomic(path: Path) -> Generator[IO[bytes], None, None]:
+    """
+    Open a temporary file for writing, which replaces path once it is complete.
+
+    If the write fails or is interrupted the content of path is left untouched.
+    """
+    temp = path.with_name(f".{path.name}.{os.getpid()}.{threading.get_ident()}.tmp")
+    try:
+        with temp.open("wb") as f:
+            yield f
+        temp.replace(path)
+    finally:
+        temp.unlink(missing_ok=True)
+
+
 def timed(f: Callable[_P, _R]) -> Callable[_P, _R]:
     """
     Log the time taken for f to run.
@@ -100,7 +117,8 @@ def npy_cached(
             except FileNotFoundError:
                 arr = f(*args, **kw)
                 # Saving pickeld
-                np.save(cache_path, np.asanyarray(arr), allow_pickle=save_pickle)
+                with _open_atomic(Path(cache_path)) as file:
+                    np.save(file, np.asanyarray(arr), allow_pickle=save_pickle)
 
             return arr
 
@@ -147,7 +165,7 @@ class CachedFunction(Generic[_P, _RD]):
         obj = self.call_uncached(*args, **kw)
         cache_path = self._get_cache_path(*args, **kw)
         if cache_path is not None:
-            with cache_path.open("wb") as f:
+            with _open_atomic(cache_path) as f:
                 pickle.dump(obj, f, pickle.HIGHEST_PROTOCOL)
         return obj
 
-- 
2.43.0


From aa1936da8ca473b62d5e7b2295e36347230e558f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:03 +0000
Subject: [PATCH 02/92] fix: convert real vectors to complex by value when a
 basis is converted to itself

---
 surface_potential_analysis/basis/basis_like.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/basis/basis_like.py b/surface_potential_analysis/basis/basis_like.py
index 0204947..34a7050 100644
--- a/surface_potential_analysis/basis/basis_like.py
+++ b/surface_potential_analysis/basis/basis_like.py
@@ -308,7 +308,7 @@ class BasisLike(
     ) -> np.ndarray[Any, np.dtype[np.complex128]]:
         assert basis.fundamental_n == self.fundamental_n
         if self == basis:
-            return vector.view(np.complex128)
+            return vector.astype(np.complex128, copy=False)
         # Small speedup here, and prevents imprecision of fft followed by ifft
         # And two pad_ft_points
         if isinstance(self, AsTransformedBasis) and isinstance(
-- 
2.43.0


From 6435b247319c0d1ea971456d26a4d6fad611d817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:03 +0000
Subject: [PATCH 03/92] fix: use the shape given for each axis when
 interpolating a state vector

---
 surface_potential_analysis/state_vector/conversion.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/surface_potential_analysis/state_vector/conversion.py b/surface_potential_analysis/state_vector/conversion.py
index d2965e6..b9cf5f1 100644
--- a/surface_potential_analysis/state_vector/conversion.py
+++ b/surface_potential_analysis/state_vector/conversion.py
@@ -214,13 +214,13 @@ def interpolate_state_vector_momentum(
     final_basis = TupleBasis[*tuple[BasisWithLengthLike[Any, Any, Any], ...]](
         *tuple(
             TransformedPositionBasis(ax.delta_x, ax.n, shape[idx])
-            if (
-                idx := next((i for i, jax in enumerate(axes) if jax == iax), None)
-                is not None
-            )
+            if (idx := next((i for i, jax in enumerate(axes) if jax == iax), None))
+            is not None
             else ax
             for iax, ax in enumerate(converted["basis"])
         )
     )
-    scaled = converted["data"] * np.sqrt(np.prod(shape) / converted_basis.n)
+    scaled = converted["data"] * np.sqrt(
+        final_basis.fundamental_n / converted_basis.n
+    )
     return {"basis": final_basis, "data": scaled}
-- 
2.43.0


From cc133a842ee57edd6c5c8e1c9c9407f6986700e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:12 +0000
Subject: [PATCH 04/92] fix: drop the unused transform that made overlap
 momentum conversion fail

---
 surface_potential_analysis/overlap/conversion.py | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/surface_potential_analysis/overlap/conversion.py b/surface_potential_analysis/overlap/conversion.py
index f55523e..86cd660 100644
--- a/surface_potential_analysis/overlap/conversion.py
+++ b/surface_potential_analysis/overlap/conversion.py
@@ -2,8 +2,6 @@ from __future__ import annotations
 
 from typing import TYPE_CHECKING, Any, Literal, TypeVar
 
-import numpy as np
-
 from surface_potential_analysis.basis.basis_like import (
     BasisLike,
     BasisWithLengthLike,
@@ -81,14 +79,6 @@ def convert_overlap_to_momentum_basis(
     -------
     OverlapMomentum[_L0Inv, _L1Inv, _L2Inv]
     """
-    transformed = np.fft.ifftn(
-        overlap["data"].reshape(overlap["basis"].shape),
-        axes=(0, 1, 2),
-        s=overlap["basis"].fundamental_shape,
-        norm="forward",
-    )
-    transformed.reshape(-1)
-
     return convert_overlap_to_basis(
         overlap, stacked_basis_as_fundamental_momentum_basis(overlap["basis"][0])
     )
-- 
2.43.0


From 172c76166e2db9eb05696ab6bb7f72a7cc65dee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:32 +0000
Subject: [PATCH 05/92] fix: fold points of the brillouin zone in any number of
 dimensions

---
 surface_potential_analysis/stacked_basis/brillouin_zone.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/surface_potential_analysis/stacked_basis/brillouin_zone.py b/surface_potential_analysis/stacked_basis/brillouin_zone.py
index 5257d0c..4c6f7bc 100644
--- a/surface_potential_analysis/stacked_basis/brillouin_zone.py
+++ b/surface_potential_analysis/stacked_basis/brillouin_zone.py
@@ -79,11 +79,7 @@ def fold_point_in_bragg_plane(
     # If we denote the plane by the normal n and point p, where p.n n = p
     # we find p is given by bragg_point / 2.
     # The two reflections are then equivalent to a translation a - 2p.
-    return (
-        (coordinate[0] - bragg_point[0]),  # type: ignore cant infer
-        (coordinate[1] - bragg_point[1]),
-        (coordinate[2] - bragg_point[2]),
-    )
+    return tuple(c - b for c, b in zip(coordinate, bragg_point, strict=True))
 
 
 def get_bragg_point_basis(
-- 
2.43.0


From c257032f7912e8f273e04f4bb6042c8435151bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:32 +0000
Subject: [PATCH 06/92] fix: fundamental times of an evenly spaced time basis
 agree with its times

---
 surface_potential_analysis/basis/time_basis_like.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/basis/time_basis_like.py b/surface_potential_analysis/basis/time_basis_like.py
index 8d59d55..d3b2f5b 100644
--- a/surface_potential_analysis/basis/time_basis_like.py
+++ b/surface_potential_analysis/basis/time_basis_like.py
@@ -51,7 +51,7 @@ class EvenlySpacedTimeBasis(
 
     @property
     def fundamental_times(self) -> np.ndarray[tuple[Any], np.dtype[np.float64]]:
-        return np.linspace(0, self._delta_t, self.fundamental_n)  # type: ignore[no-any-return]
+        return self.fundamental_dt * np.arange(self.fundamental_n)  # type: ignore[no-any-return]
 
     @property
     def delta_t(self) -> float:
-- 
2.43.0


From e5ea768fc73bfecf40bc1b74cb197d1c3dd4d93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:45 +0000
Subject: [PATCH 07/92] fix: name no type-checking-only type when building an n
 point basis

---
 surface_potential_analysis/basis/conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/basis/conversion.py b/surface_potential_analysis/basis/conversion.py
index ee4b11f..4510045 100644
--- a/surface_potential_analysis/basis/conversion.py
+++ b/surface_potential_analysis/basis/conversion.py
@@ -108,7 +108,7 @@ def basis_as_n_point_basis(
     -------
     FundamentalPositionBasis[_N1Inv, _NDInv]
     """
-    return FundamentalPositionBasis[_N1Inv, int](delta_x, n)
+    return FundamentalPositionBasis(delta_x, n)
 
 
 def basis_as_single_point_basis(
-- 
2.43.0


From 60c30763ee43f51fdb18de0515f28bb5b501b8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:27 +0000
Subject: [PATCH 08/92] fix: average positions on axes of which only some have
 opposite points

---
 surface_potential_analysis/basis/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/basis/util.py b/surface_potential_analysis/basis/util.py
index f8c16df..fa1dc4c 100644
--- a/surface_potential_analysis/basis/util.py
+++ b/surface_potential_analysis/basis/util.py
@@ -517,7 +517,7 @@ def get_twice_average_nx(
     is_nan = np.isnan(average_angles)
     if np.any(is_nan):
         for i, angle in enumerate(angles):
-            average_angles[i][is_nan[i]] = np.average(angle[:, is_nan[i]], axis=0)
+            average_angles[i][is_nan[i]] = np.mean(angle[:, is_nan[i]], axis=0)
 
     # Interpret this back as a coordinate. Note we multiply average by 2 here
     return tuple(
-- 
2.43.0


From 4260caf0f4f0c78f0c878727ce8f238b7eab822d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:04 +0000
Subject: [PATCH 09/92] fix: interpolate the last axes in order when no axes
 are given

---
 surface_potential_analysis/util/interpolation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/util/interpolation.py b/surface_potential_analysis/util/interpolation.py
index 05ca1bc..97f6916 100644
--- a/surface_potential_analysis/util/interpolation.py
+++ b/surface_potential_analysis/util/interpolation.py
@@ -102,7 +102,7 @@ def interpolate_points_fftn(
     NDArray
         The points interpolated along the given axes
     """
-    axes_arr = np.arange(-1, -1 - len(s), -1) if axes is None else np.array(axes)
+    axes_arr = np.arange(-len(s), 0) if axes is None else np.array(axes)
     # We use the forward norm here, as otherwise we would also need to
     # scale the ft_potential by a factor of n / shape[axis]
     # when we pad or truncate it
@@ -176,7 +176,7 @@ def interpolate_points_rfftn(
     -------
     np.ndarray[tuple, np.dtype[np.float_]]
     """
-    axes_arr = np.arange(-1, -1 - len(s), -1) if axes is None else np.array(axes)
+    axes_arr = np.arange(-len(s), 0) if axes is None else np.array(axes)
     ft_points = np.fft.rfftn(points, axes=axes_arr, norm="forward")  # type: ignore Argument of type "NDArray[signedinteger[Any]] | NDArray[Any]" cannot be assigned to parameter "axes" of type "Sequence[int] | None"
     # pad (or truncate) for the new lengths s
     # we don't need to pad the last axis here, as it is handled correctly by irfftn
-- 
2.43.0


From aa630a1728dc5bd78bdb50828b626e23694be9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:31 +0000
Subject: [PATCH 10/92] fix: spline interpolation along an axis other than the
 last of a 3d array returned unset values

---
 surface_potential_analysis/util/interpolation.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/surface_potential_analysis/util/interpolation.py b/surface_potential_analysis/util/interpolation.py
index 97f6916..ec20c29 100644
--- a/surface_potential_analysis/util/interpolation.py
+++ b/surface_potential_analysis/util/interpolation.py
@@ -239,13 +239,13 @@ def interpolate_points_along_axis_spline(
     """Use a spline interpolation to increase the Z resolution, spacing z linearly."""
     new_coords = list(np.linspace(old_coords[0], old_coords[-1], n))  # type: ignore bad type inference
 
-    new_shape = list(data.shape)
-    new_shape[axis] = n
-    points = np.empty(new_shape)
+    swapped_data = data.swapaxes(axis, -1)
+    points = np.empty((*swapped_data.shape[:-1], n))
 
-    swapped_points = points.swapaxes(axis, -1).reshape(-1, n)
+    # points is contiguous, so this is a view
+    swapped_points = points.reshape(-1, n)
 
-    flat_data = data.swapaxes(axis, -1).reshape(-1, data.shape[axis])
+    flat_data = swapped_data.reshape(-1, data.shape[axis])
 
     for i in range(flat_data.shape[0]):
         old_energies = flat_data[i]
@@ -253,4 +253,4 @@ def interpolate_points_along_axis_spline(
         new_energy = scipy.interpolate.splev(new_coords, tck, der=0)  # type: ignore bad type inference
         swapped_points[i] = new_energy  # type: ignore bad type inference
 
-    return points  # type: ignore[no-any-return]
+    return points.swapaxes(axis, -1)  # type: ignore[no-any-return]
-- 
2.43.0


From 77f5e76b18c114db615b2deac6b1a55c3ec7fc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:15 +0000
Subject: [PATCH 11/92] fix: sum the components, not the steps, in the distance
 along a momentum path

---
 surface_potential_analysis/stacked_basis/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/stacked_basis/util.py b/surface_potential_analysis/stacked_basis/util.py
index 510a047..e9449a3 100644
--- a/surface_potential_analysis/stacked_basis/util.py
+++ b/surface_potential_analysis/stacked_basis/util.py
@@ -446,7 +446,7 @@ def calculate_cumulative_k_distances_along_path(
     )
     util = BasisUtil(basis)
     x_distances = np.linalg.norm(  # TODO: test
-        np.tensordot(distances, util.dk_stacked, axes=(0, 0)),
+        np.tensordot(util.dk_stacked, distances, axes=(0, 0)),
         axis=0,
     )
     cum_distances = np.cumsum(x_distances)
-- 
2.43.0


From d01a582c2033a93812c41788eb02b267f50f1a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:48 +0000
Subject: [PATCH 12/92] fix: average eigenvalues over every axis of their basis
 by default

---
 surface_potential_analysis/operator/operator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/operator/operator.py b/surface_potential_analysis/operator/operator.py
index 7938035..dcc8019 100644
--- a/surface_potential_analysis/operator/operator.py
+++ b/surface_potential_analysis/operator/operator.py
@@ -167,7 +167,7 @@ def average_eigenvalues(
     -------
     EigenvalueList[Any]
     """
-    axis = tuple(range(eigenvalues["basis"].ndim)) if axis is None else axis
+    axis = tuple(range(eigenvalues["basis"][0].ndim)) if axis is None else axis
     basis = tuple(b for (i, b) in enumerate(eigenvalues["basis"][0]) if i not in axis)
     return {
         "basis": TupleBasis(TupleBasis(*basis), TupleBasis(*basis)),
@@ -200,7 +200,9 @@ def average_eigenvalues_list(
     -------
     EigenvalueList[Any]
     """
-    axis = tuple(range(eigenvalues["basis"].ndim)) if axis is None else axis
+    axis = (
+        tuple(range(eigenvalues["basis"][1][0].ndim)) if axis is None else axis
+    )
     basis = tuple(
         b for (i, b) in enumerate(eigenvalues["basis"][1][0]) if i not in axis
     )
-- 
2.43.0


From 6582ef7e9053b73e2efa5c28f347208e1c6c2d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:48 +0000
Subject: [PATCH 13/92] fix: sum probabilities over every axis of the states by
 default, and return a basis

---
 .../probability_vector/probability_vector.py                | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/probability_vector/probability_vector.py b/surface_potential_analysis/probability_vector/probability_vector.py
index 5e5902d..c866910 100644
--- a/surface_potential_analysis/probability_vector/probability_vector.py
+++ b/surface_potential_analysis/probability_vector/probability_vector.py
@@ -146,7 +146,9 @@ def sum_probability(
     ProbabilityVector[Any]
     """
     axis = tuple(range(probability["basis"].ndim)) if axis is None else axis
-    basis = tuple(b for (i, b) in enumerate(probability["basis"]) if i not in axis)
+    basis = TupleBasis(
+        *tuple(b for (i, b) in enumerate(probability["basis"]) if i not in axis)
+    )
     return {
         "basis": basis,
         "data": (
@@ -173,7 +175,7 @@ def sum_probabilities(
     -------
     ProbabilityVectorList[Any, _L0Inv]
     """
-    axis = tuple(range(probabilities["basis"].ndim)) if axis is None else axis
+    axis = tuple(range(probabilities["basis"][1].ndim)) if axis is None else axis
     basis = TupleBasis(
         *tuple(b for (i, b) in enumerate(probabilities["basis"][1]) if i not in axis)
     )
-- 
2.43.0


From 0ad0eef5e9be95c4c147d687f7b6fe6cefcac8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:58 +0000
Subject: [PATCH 14/92] fix: selecting states or probabilities along axes
 handles any number of axes, named in the order of the data

---
 .../probability_vector/probability_vector.py           | 10 ++++------
 .../state_vector/state_vector_list.py                  |  4 +---
 2 files changed, 5 insertions(+), 9 deletions(-)

diff --git a/surface_potential_analysis/probability_vector/probability_vector.py b/surface_potential_analysis/probability_vector/probability_vector.py
index c866910..c9aa2e9 100644
--- a/surface_potential_analysis/probability_vector/probability_vector.py
+++ b/surface_potential_analysis/probability_vector/probability_vector.py
@@ -114,16 +114,14 @@ def get_probability_along_axis(
     ProbabilityVector[_B0Inv]
     """
     ndim = probabilities["basis"][0].ndim
-    idx = tuple(0 for _ in range(ndim - 2)) if idx is None else idx
-    final_basis = TupleBasis(
-        *tuple(b for (i, b) in enumerate(probabilities["basis"][0]) if i in axes)
-    )
+    idx = tuple(0 for _ in range(ndim - len(axes))) if idx is None else idx
+    final_basis = TupleBasis(*tuple(probabilities["basis"][0][i] for i in axes))
 
     vector = get_data_in_axes(
-        probabilities["data"].reshape(probabilities["basis"].shape),
+        probabilities["data"].reshape(*probabilities["basis"][0].shape, -1),
         (*axes, ndim),
         idx,
-    ).reshape(*final_basis.shape, -1)
+    ).reshape(-1)
     return {
         "basis": TupleBasis(final_basis, probabilities["basis"][1]),
         "data": vector,
diff --git a/surface_potential_analysis/state_vector/state_vector_list.py b/surface_potential_analysis/state_vector/state_vector_list.py
index a943e20..410d82f 100644
--- a/surface_potential_analysis/state_vector/state_vector_list.py
+++ b/surface_potential_analysis/state_vector/state_vector_list.py
@@ -333,9 +333,7 @@ def get_state_along_axis(
     """
     ndim = states["basis"][0].ndim
     idx = tuple(0 for _ in range(ndim - len(axes))) if idx is None else idx
-    final_basis = TupleBasis(
-        *tuple(b for (i, b) in enumerate(states["basis"][0]) if i in axes)
-    )
+    final_basis = TupleBasis(*tuple(states["basis"][0][i] for i in axes))
 
     vector = get_data_in_axes(
         states["data"].reshape(*states["basis"][0].shape, -1),
-- 
2.43.0


From 299f2c445f4a5a1670051e04ede98d034818a810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:13 +0000
Subject: [PATCH 15/92] fix: products of operators and lists use the shape of
 the converted operand

---
 surface_potential_analysis/operator/operations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/operator/operations.py b/surface_potential_analysis/operator/operations.py
index ed57d85..bf16f97 100644
--- a/surface_potential_analysis/operator/operations.py
+++ b/surface_potential_analysis/operator/operations.py
@@ -75,7 +75,7 @@ def matmul_list_operator(
 
     data = np.tensordot(
         lhs["data"].reshape(-1, *lhs["basis"][1].shape),
-        converted["data"].reshape(rhs["basis"].shape),
+        converted["data"].reshape(converted["basis"].shape),
         axes=(2, 0),
     ).reshape(-1)
     return {
@@ -175,7 +175,7 @@ def matmul_operator_diagonal_list(
     )
     data = np.einsum(  # type: ignore lib
         "ik,mk->mik",
-        converted["data"].reshape(lhs["basis"].shape),
+        converted["data"].reshape(converted["basis"].shape),
         rhs["data"].reshape(-1, rhs["basis"][1][0].n),
     ).reshape(-1)
     return {
-- 
2.43.0


From 45246a5a436c5b70f8dd94a204fba2116b743fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:05 +0000
Subject: [PATCH 16/92] fix: displacements along a single basis are one wrapped
 distance per (pair of) points

---
 surface_potential_analysis/operator/build.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/surface_potential_analysis/operator/build.py b/surface_potential_analysis/operator/build.py
index e959de3..bf23654 100644
--- a/surface_potential_analysis/operator/build.py
+++ b/surface_potential_analysis/operator/build.py
@@ -47,6 +47,13 @@ def _wrap_displacements(
     ).astype(np.float64)
 
 
+def _get_distances_along_basis(
+    basis: FundamentalPositionBasis[Any, Any],
+) -> np.ndarray[tuple[int], np.dtype[np.float64]]:
+    util = BasisUtil(basis)
+    return np.linalg.norm(util.dx) * util.nx_points
+
+
 def get_displacements_x(
     basis: BasisWithLengthLike[Any, Any, Any], origin: float
 ) -> ValueList[FundamentalPositionBasis[Any, Any]]:
@@ -62,7 +69,7 @@ def get_displacements_x(
     ValueList[FundamentalPositionBasis[Any, Any]]
     """
     basis_x = basis_as_fundamental_position_basis(basis)
-    distances = BasisUtil(basis_x).x_points - origin
+    distances = _get_distances_along_basis(basis_x) - origin
     max_distance = np.linalg.norm(basis_x.delta_x) / 2
     data = _wrap_displacements(distances, max_distance)
     return {"basis": basis_x, "data": data.astype(np.complex128)}
@@ -166,10 +173,10 @@ def get_displacements_matrix_x(
     ValueList[FundamentalPositionBasis[Any, Any]]
     """
     basis_x = basis_as_fundamental_position_basis(basis)
-    x_points = BasisUtil(basis_x).x_points
+    x_points = _get_distances_along_basis(basis_x)
     distances = x_points[:, np.newaxis] - x_points[np.newaxis, :] - origin
     max_distance = np.linalg.norm(basis_x.delta_x) / 2
-    data = np.remainder((distances + basis_x.delta_x), max_distance) - max_distance
+    data = _wrap_displacements(distances, max_distance)
     return {"basis": TupleBasis(basis_x, basis_x), "data": data.astype(np.complex128)}
 
 
-- 
2.43.0


From 0f27a6c0486cfa317dc1f8ec547e760db6df209d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:05 +0000
Subject: [PATCH 17/92] fix: an isotropic kernel holds the correlation for
 displacements from state 0

---
 surface_potential_analysis/kernel/build.py  | 3 ++-
 surface_potential_analysis/kernel/kernel.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/kernel/build.py b/surface_potential_analysis/kernel/build.py
index df4b6d5..66d3bc0 100644
--- a/surface_potential_analysis/kernel/build.py
+++ b/surface_potential_analysis/kernel/build.py
@@ -99,7 +99,8 @@ def build_isotropic_kernel_from_function(
     ]
     """
     displacements = get_displacements_matrix_x(basis)
-    correlation = fn(displacements["data"].reshape(displacements["basis"].shape)[0])
+    # the displacements x - x', for x' = 0
+    correlation = fn(displacements["data"].reshape(displacements["basis"].shape)[:, 0])
 
     return {"basis": displacements["basis"][0], "data": correlation.ravel()}
 
diff --git a/surface_potential_analysis/kernel/kernel.py b/surface_potential_analysis/kernel/kernel.py
index 8928a73..b788186 100644
--- a/surface_potential_analysis/kernel/kernel.py
+++ b/surface_potential_analysis/kernel/kernel.py
@@ -243,7 +243,7 @@ def as_isotropic_kernel_from_diagonal(
     -------
     IsotropicNoiseKernel[_B0]
     """
-    data = kernel["data"].reshape(kernel["basis"][0].shape)[0]
+    data = kernel["data"].reshape(kernel["basis"][0].shape)[:, 0]
     out: IsotropicNoiseKernel[_B0] = {"basis": kernel["basis"][0][0], "data": data}
 
     if assert_isotropic:
-- 
2.43.0


From 0c97eb2ca0d212181788d9462376c3b816c101af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:25 +0000
Subject: [PATCH 18/92] fix: gaussian noise kernels take displacements along
 each axis of the surface

---
 surface_potential_analysis/kernel/gaussian.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/kernel/gaussian.py b/surface_potential_analysis/kernel/gaussian.py
index b6aa791..82cfdc4 100644
--- a/surface_potential_analysis/kernel/gaussian.py
+++ b/surface_potential_analysis/kernel/gaussian.py
@@ -26,7 +26,7 @@ from surface_potential_analysis.kernel.kernel import (
     AxisKernel,
     DiagonalNoiseOperatorList,
     SingleBasisDiagonalNoiseOperatorList,
-    as_diagonal_kernel_from_isotropic,
+    as_diagonal_kernel_from_isotropic_stacked,
     get_diagonal_noise_operators_from_axis,
 )
 from surface_potential_analysis.kernel.solve._fft import (
@@ -159,7 +159,7 @@ def get_gaussian_noise_kernel(
     SingleBasisDiagonalNoiseKernel[ TupleBasisLike[FundamentalPositionBasis[Any, Literal[1]]] ]
         _description_
     """
-    return as_diagonal_kernel_from_isotropic(
+    return as_diagonal_kernel_from_isotropic_stacked(
         get_gaussian_isotropic_noise_kernel(basis, a, lambda_)
     )
 
-- 
2.43.0


From 9e86320ceb0cb24b5011c6b595208b5ed597cf9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:25 +0000
Subject: [PATCH 19/92] fix: truncating a diagonal noise kernel treats its
 operators as diagonal

---
 surface_potential_analysis/kernel/build.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/kernel/build.py b/surface_potential_analysis/kernel/build.py
index 66d3bc0..1e0d181 100644
--- a/surface_potential_analysis/kernel/build.py
+++ b/surface_potential_analysis/kernel/build.py
@@ -18,7 +18,7 @@ from surface_potential_analysis.kernel.kernel import (
     DiagonalNoiseKernel,
     IsotropicNoiseKernel,
     SingleBasisNoiseOperatorList,
-    get_diagonal_kernel_from_operators,
+    get_diagonal_kernel_from_diagonal_operators,
     get_full_kernel_from_operators,
 )
 from surface_potential_analysis.kernel.solve._eigenvalue import (
@@ -365,4 +365,4 @@ def truncate_diagonal_noise_kernel(
     operators = get_periodic_noise_operators_diagonal_eigenvalue(kernel)
 
     truncated = truncate_diagonal_noise_operator_list(operators, truncation)
-    return get_diagonal_kernel_from_operators(truncated)
+    return get_diagonal_kernel_from_diagonal_operators(truncated)
-- 
2.43.0


From 72c41fbb06c5c96d94d657e0b1fa80f636436fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:25 +0000
Subject: [PATCH 20/92] fix: as many taylor coefficients as operators for
 lorentzian noise

---
 surface_potential_analysis/kernel/lorentzian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/kernel/lorentzian.py b/surface_potential_analysis/kernel/lorentzian.py
index c3a49cd..2357f7f 100644
--- a/surface_potential_analysis/kernel/lorentzian.py
+++ b/surface_potential_analysis/kernel/lorentzian.py
@@ -105,7 +105,7 @@ def _get_explicit_taylor_coefficients_lorentzian(
     *,
     n_terms: int = 1,
 ) -> np.ndarray[Any, np.dtype[np.float64]]:
-    i = np.arange(0, n_terms + 1)
+    i = np.arange(0, n_terms)
     return a**2 * ((-1 / (lambda_**2)) ** i)
 
 
-- 
2.43.0


From 6dbde9e5c84710e7ae9a3386c3488f0263b7ec72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:25 +0000
Subject: [PATCH 21/92] fix: one eigenvalue for each real operator of an
 isotropic noise kernel

---
 surface_potential_analysis/kernel/solve/_fft.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/kernel/solve/_fft.py b/surface_potential_analysis/kernel/solve/_fft.py
index ca40946..e686b4f 100644
--- a/surface_potential_analysis/kernel/solve/_fft.py
+++ b/surface_potential_analysis/kernel/solve/_fft.py
@@ -231,8 +231,12 @@ def get_periodic_noise_operators_real_isotropic_fft(
 
     fundamental_n = kernel["basis"].n if n is None else 2 * n + 1
 
+    n_frequencies = fundamental_n // 2 + 1
     operators = get_periodic_operators_for_real_isotropic_noise(
-        kernel["basis"], fundamental_n=fundamental_n, assert_periodic=assert_periodic
+        kernel["basis"],
+        n=n_frequencies,
+        fundamental_n=fundamental_n,
+        assert_periodic=assert_periodic,
     )
 
     eigenvalues = _get_noise_eigenvalues_isotropic_fft(
@@ -243,12 +247,15 @@ def get_periodic_noise_operators_real_isotropic_fft(
         eigenvalues["data"][1::],
         eigenvalues["data"][1::][::-1],
         rtol=1e-8,
+        atol=1e-8 * np.max(np.abs(eigenvalues["data"])),
     )
 
+    # the cosine and the sine of a frequency share their eigenvalue
+    coefficients = eigenvalues["data"][:n_frequencies]
     return {
         "basis": operators["basis"],
         "data": operators["data"],
-        "eigenvalue": eigenvalues["data"],
+        "eigenvalue": np.concatenate([coefficients, coefficients[:0:-1]]),
     }
 
 
-- 
2.43.0


From 1a471066ef0d8eff8015f2782a5f1f9d34c9a17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:54 +0000
Subject: [PATCH 22/92] fix: compare noise kernels relative to their largest
 entry, so zeros pass

---
 surface_potential_analysis/kernel/kernel.py            | 5 ++++-
 surface_potential_analysis/kernel/solve/_eigenvalue.py | 4 +++-
 surface_potential_analysis/kernel/solve/_fft.py        | 4 +++-
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/surface_potential_analysis/kernel/kernel.py b/surface_potential_analysis/kernel/kernel.py
index b788186..9c43591 100644
--- a/surface_potential_analysis/kernel/kernel.py
+++ b/surface_potential_analysis/kernel/kernel.py
@@ -248,7 +248,9 @@ def as_isotropic_kernel_from_diagonal(
 
     if assert_isotropic:
         np.testing.assert_allclose(
-            as_diagonal_kernel_from_isotropic(out)["data"], kernel["data"]
+            as_diagonal_kernel_from_isotropic(out)["data"],
+            kernel["data"],
+            atol=1e-8 * np.max(np.abs(kernel["data"])),
         )
 
     return out
@@ -329,6 +331,7 @@ def as_isotropic_kernel_from_diagonal_stacked(
                 kernel["basis"][0].shape
             ),
             kernel["data"].reshape(kernel["basis"][0].shape),
+            atol=1e-8 * np.max(np.abs(kernel["data"])),
         )
 
     return out
diff --git a/surface_potential_analysis/kernel/solve/_eigenvalue.py b/surface_potential_analysis/kernel/solve/_eigenvalue.py
index 8eb2509..d588d5c 100644
--- a/surface_potential_analysis/kernel/solve/_eigenvalue.py
+++ b/surface_potential_analysis/kernel/solve/_eigenvalue.py
@@ -113,8 +113,9 @@ def get_periodic_noise_operators_diagonal_eigenvalue(
     # for our finite temperature correction.
     # For isotropic noise, it is always possible to force this to be true
     # As long as we have evenly spaced k (we have to take symmetric and antisymmetric combinations)
+    atol = 1e-8 * np.max(np.abs(data))
     np.testing.assert_allclose(
-        data, np.conj(np.transpose(data)), err_msg="kernel non hermitian"
+        data, np.conj(np.transpose(data)), atol=atol, err_msg="kernel non hermitian"
     )
     res = np.linalg.eigh(data)
 
@@ -127,6 +128,7 @@ def get_periodic_noise_operators_diagonal_eigenvalue(
             np.conj(np.transpose(res.eigenvectors)),
         ),
         rtol=1e-4,
+        atol=atol,
     )
     # The original kernel has the noise operators as \ket{i}\bra{j}
     # When we diagonalize we have \hat{Z}'_\beta = U^\dagger_{\beta, \alpha} \hat{Z}_\alpha
diff --git a/surface_potential_analysis/kernel/solve/_fft.py b/surface_potential_analysis/kernel/solve/_fft.py
index e686b4f..799d671 100644
--- a/surface_potential_analysis/kernel/solve/_fft.py
+++ b/surface_potential_analysis/kernel/solve/_fft.py
@@ -227,7 +227,9 @@ def get_periodic_noise_operators_real_isotropic_fft(
     -------
     SingleBasisDiagonalNoiseOperatorList[FundamentalBasis[int], FundamentalBasis[int]]
     """
-    np.testing.assert_allclose(np.imag(kernel["data"]), 0)
+    np.testing.assert_allclose(
+        np.imag(kernel["data"]), 0, atol=1e-8 * np.max(np.abs(kernel["data"]))
+    )
 
     fundamental_n = kernel["basis"].n if n is None else 2 * n + 1
 
-- 
2.43.0


From eed257844e2acb54072f2a46c5b3752b3afcd7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:13 +0000
Subject: [PATCH 23/92] fix: real operators of an isotropic noise kernel count
 both frequencies

---
 surface_potential_analysis/kernel/solve/_fft.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/kernel/solve/_fft.py b/surface_potential_analysis/kernel/solve/_fft.py
index 799d671..13e1e96 100644
--- a/surface_potential_analysis/kernel/solve/_fft.py
+++ b/surface_potential_analysis/kernel/solve/_fft.py
@@ -252,8 +252,10 @@ def get_periodic_noise_operators_real_isotropic_fft(
         atol=1e-8 * np.max(np.abs(eigenvalues["data"])),
     )
 
-    # the cosine and the sine of a frequency share their eigenvalue
+    # the cosine and the sine of a frequency share their eigenvalue,
+    # and stand for both e^(+-ikx)
     coefficients = eigenvalues["data"][:n_frequencies]
+    coefficients[1 : (fundamental_n + 1) // 2] *= 2
     return {
         "basis": operators["basis"],
         "data": operators["data"],
-- 
2.43.0


From a0b6bb92351ba7632a729189efb9dab794a8768e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:36 +0000
Subject: [PATCH 24/92] fix: one single point state for each band, spread over
 the unit cell

---
 surface_potential_analysis/state_vector/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/state_vector/util.py b/surface_potential_analysis/state_vector/util.py
index c4ec939..e10ef0e 100644
--- a/surface_potential_analysis/state_vector/util.py
+++ b/surface_potential_analysis/state_vector/util.py
@@ -80,8 +80,8 @@ def get_single_point_state_vectors(
         get_fundamental_unfurled_basis(basis)
     )
     data = np.zeros((n_bands, converted.n), dtype=np.complex128)
-    for i, n in enumerate(range(0, basis[1].n, n_bands)):
-        data[i, n] = 1
+    for i in range(n_bands):
+        data[i, (i * basis[1].n) // n_bands] = 1
     return {
         "basis": TupleBasis(FundamentalBasis(n_bands), converted),
         "data": data.reshape(-1),
-- 
2.43.0


From d774308a6694e1017f5fe28fd7c67dec7a8a798c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:36 +0000
Subject: [PATCH 25/92] fix: localize states at fractions of the unit cell
 between grid points

---
 surface_potential_analysis/state_vector/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/state_vector/util.py b/surface_potential_analysis/state_vector/util.py
index e10ef0e..a937a58 100644
--- a/surface_potential_analysis/state_vector/util.py
+++ b/surface_potential_analysis/state_vector/util.py
@@ -167,7 +167,7 @@ def get_most_localized_state_vectors_from_probability(
     averaged = average_probabilities(probabilities)
 
     sample_basis = unfurled["basis"][1]
-    sample_fractions = BasisUtil(unfurled["basis"][1]).stacked_nx_points
+    sample_fractions = BasisUtil(unfurled["basis"][1]).stacked_nk_points
     sample_fractions = tuple(
         f / n
         for (f, n) in zip(
-- 
2.43.0


From f2dd8d782b9bda55e2f0b338d625012d600fe303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:04 +0000
Subject: [PATCH 26/92] fix: averages along one axis take one weight for each
 of its elements

---
 surface_potential_analysis/operator/operator.py             | 6 ++++--
 .../probability_vector/probability_vector.py                | 3 ++-
 .../state_vector/state_vector_list.py                       | 3 ++-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/surface_potential_analysis/operator/operator.py b/surface_potential_analysis/operator/operator.py
index dcc8019..1627687 100644
--- a/surface_potential_analysis/operator/operator.py
+++ b/surface_potential_analysis/operator/operator.py
@@ -173,7 +173,8 @@ def average_eigenvalues(
         "basis": TupleBasis(TupleBasis(*basis), TupleBasis(*basis)),
         "data": np.average(
             eigenvalues["data"].reshape(*eigenvalues["basis"][0].shape),
-            axis=tuple(ax for ax in axis),
+            # numpy takes one weight per element only along a single integer axis
+            axis=axis[0] if len(axis) == 1 else tuple(axis),
             weights=weights,
         ).reshape(-1),
     }
@@ -215,7 +216,8 @@ def average_eigenvalues_list(
             eigenvalues["data"].reshape(
                 eigenvalues["basis"][0].n, *eigenvalues["basis"][1][0].shape
             ),
-            axis=tuple(1 + ax for ax in axis),
+            # numpy takes one weight per element only along a single integer axis
+            axis=1 + axis[0] if len(axis) == 1 else tuple(1 + ax for ax in axis),
             weights=weights,
         ).reshape(-1),
     }
diff --git a/surface_potential_analysis/probability_vector/probability_vector.py b/surface_potential_analysis/probability_vector/probability_vector.py
index c9aa2e9..cc14cdf 100644
--- a/surface_potential_analysis/probability_vector/probability_vector.py
+++ b/surface_potential_analysis/probability_vector/probability_vector.py
@@ -240,7 +240,8 @@ def average_probabilities(
         "basis": TupleBasis(basis, probabilities["basis"][1]),
         "data": np.average(
             probabilities["data"].reshape(*old_basis.shape, -1),
-            axis=tuple(ax for ax in axis),
+            # numpy takes one weight per element only along a single integer axis
+            axis=axis[0] if len(axis) == 1 else tuple(axis),
             weights=weights,
         ).reshape(-1),
     }
diff --git a/surface_potential_analysis/state_vector/state_vector_list.py b/surface_potential_analysis/state_vector/state_vector_list.py
index 410d82f..098ecaa 100644
--- a/surface_potential_analysis/state_vector/state_vector_list.py
+++ b/surface_potential_analysis/state_vector/state_vector_list.py
@@ -286,7 +286,8 @@ def average_state_vector(
         "basis": TupleBasis(basis, probabilities["basis"][1]),
         "data": np.average(
             probabilities["data"].reshape(*probabilities["basis"][0].shape, -1),
-            axis=tuple(ax for ax in axis),
+            # numpy takes one weight per element only along a single integer axis
+            axis=axis[0] if len(axis) == 1 else tuple(axis),
             weights=weights,
         ).reshape(-1),
     }
-- 
2.43.0


From 8f53e62936084918ebeeb8788e64ac344b874b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:22 +0000
Subject: [PATCH 27/92] fix: list all eigenstates of a wavepacket with flat
 data

---
 surface_potential_analysis/wavepacket/get_eigenstate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/wavepacket/get_eigenstate.py b/surface_potential_analysis/wavepacket/get_eigenstate.py
index 1f745a7..cfda314 100644
--- a/surface_potential_analysis/wavepacket/get_eigenstate.py
+++ b/surface_potential_analysis/wavepacket/get_eigenstate.py
@@ -235,7 +235,7 @@ def get_all_eigenstates(
             "eigenvalue": e,
         }
         for (v, e, *offset) in zip(
-            converted["data"],
+            converted["data"].reshape(converted["basis"].shape),
             wavepacket["eigenvalue"],
             *util.stacked_nk_points,
             strict=True,
-- 
2.43.0


From 99a3db4a057ce2e493697db242f13dd93a2e0c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:22 +0000
Subject: [PATCH 28/92] fix: keep the tight binding state within one unit cell
 of points

---
 .../wavepacket/get_eigenstate.py                       | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/surface_potential_analysis/wavepacket/get_eigenstate.py b/surface_potential_analysis/wavepacket/get_eigenstate.py
index cfda314..94bb539 100644
--- a/surface_potential_analysis/wavepacket/get_eigenstate.py
+++ b/surface_potential_analysis/wavepacket/get_eigenstate.py
@@ -307,20 +307,18 @@ def get_tight_binding_state(
         get_wavepacket_state_vector(wavepacket, idx)
     )
     util = BasisUtil(state_0["basis"])
+    unit_cell = stacked_basis_as_fundamental_position_basis(wavepacket["basis"][1])
     if origin is None:
         idx_0: SingleStackedIndexLike = util.get_stacked_index(
             int(np.argmax(np.abs(state_0["data"]), axis=-1))
         )
-        origin = wrap_index_around_origin(
-            wavepacket["basis"][1],
-            idx_0,
-        )
+        origin = wrap_index_around_origin(unit_cell, idx_0)
     # Under the tight binding approximation all state vectors are equal.
     # The corresponding localized state is just the state at some index
     # truncated to a single unit cell
-    unit_cell_util = BasisUtil(wavepacket["basis"])
+    unit_cell_util = BasisUtil(unit_cell)
     relevant_idx = wrap_index_around_origin(
-        wavepacket["basis"][1],
+        unit_cell,
         unit_cell_util.fundamental_stacked_nx_points,
         origin=origin,
     )
-- 
2.43.0


From fd9590c3a90322161979d3762d34293d403d4cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:22 +0000
Subject: [PATCH 29/92] fix: convert_wavepacket_to_shape keeps a transformed
 list basis and flat data

---
 surface_potential_analysis/wavepacket/conversion.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/surface_potential_analysis/wavepacket/conversion.py b/surface_potential_analysis/wavepacket/conversion.py
index 55bfa59..bcda46e 100644
--- a/surface_potential_analysis/wavepacket/conversion.py
+++ b/surface_potential_analysis/wavepacket/conversion.py
@@ -21,6 +21,7 @@ from surface_potential_analysis.stacked_basis.build import (
 from surface_potential_analysis.stacked_basis.conversion import (
     stacked_basis_as_fundamental_momentum_basis,
     stacked_basis_as_fundamental_position_basis,
+    stacked_basis_as_fundamental_transformed_basis,
 )
 
 if TYPE_CHECKING:
@@ -299,9 +300,10 @@ def convert_wavepacket_to_shape(
     )
     return {
         "basis": TupleBasis(
-            fundamental_stacked_basis_from_shape(shape), wavepacket["basis"][1]
+            stacked_basis_as_fundamental_transformed_basis(
+                fundamental_stacked_basis_from_shape(shape)
+            ),
+            wavepacket["basis"][1],
         ),
-        "data": wavepacket["data"]
-        .reshape(*old_shape, -1)[*slices, :]
-        .reshape(np.prod(shape), -1),
+        "data": wavepacket["data"].reshape(*old_shape, -1)[*slices, :].reshape(-1),
     }
-- 
2.43.0


From 53809a630f26dd855464f40443231f9a8616e46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:22 +0000
Subject: [PATCH 30/92] fix: get_bloch_states with a truncated list basis

---
 surface_potential_analysis/wavepacket/get_eigenstate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/wavepacket/get_eigenstate.py b/surface_potential_analysis/wavepacket/get_eigenstate.py
index 94bb539..cedaa64 100644
--- a/surface_potential_analysis/wavepacket/get_eigenstate.py
+++ b/surface_potential_analysis/wavepacket/get_eigenstate.py
@@ -486,7 +486,7 @@ def get_bloch_states(
         )
     )
     out = np.zeros(
-        (*wavepackets["basis"][0].shape, decompressed_basis.n), dtype=np.complex128
+        (*converted["basis"][0].shape, decompressed_basis.n), dtype=np.complex128
     )
 
     util = BasisUtil(converted["basis"][0][1])
-- 
2.43.0


From d6d3f86f5bdffa3400b80f095b416c94d037dfe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:35 +0000
Subject: [PATCH 31/92] fix: BlochBasis with truncated wavefunctions into the
 fundamental basis

---
 .../wavepacket/get_eigenstate.py                 | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/surface_potential_analysis/wavepacket/get_eigenstate.py b/surface_potential_analysis/wavepacket/get_eigenstate.py
index cedaa64..dd7b14f 100644
--- a/surface_potential_analysis/wavepacket/get_eigenstate.py
+++ b/surface_potential_analysis/wavepacket/get_eigenstate.py
@@ -694,16 +694,16 @@ class BlochBasis(
             axis=axis,
         )
 
-        k_shape = self.wavefunctions["basis"][1].shape
-        list_shape = self.wavefunctions["basis"][0][1].shape
+        k_shape = self.wavefunctions["basis"][1].fundamental_shape
+        list_shape = self.wavefunctions["basis"][0][1].fundamental_shape
         ndim = len(k_shape)
 
         inner_shape = tuple(zip(list_shape, k_shape))
         shifted = np.fft.fftshift(
             converted.reshape(
-                *vectors_in_basis.shape[:axis],
+                *converted.shape[:axis],
                 *tuple(item for pair in zip(*inner_shape) for item in pair),
-                *vectors_in_basis.shape[axis + 1 :],
+                *converted.shape[axis + 1 :],
             ),
             axes=tuple(range(axis, axis + 2 * ndim)),
         )
@@ -724,9 +724,9 @@ class BlochBasis(
         )
         unshifted = np.roll(
             transposed.reshape(
-                *vectors_in_basis.shape[:axis],
+                *converted.shape[:axis],
                 *tuple(np.prod(x) for x in inner_shape),
-                *vectors_in_basis.shape[axis + 1 :],
+                *converted.shape[axis + 1 :],
             ),
             shift,
             tuple(range(axis, axis + ndim)),
@@ -734,7 +734,7 @@ class BlochBasis(
         if self.vectors_basis.n < 100 * 90:
             np.testing.assert_allclose(
                 self.vectors_basis[1].__into_fundamental__(
-                    unshifted.reshape(vectors_in_basis.shape), axis
+                    unshifted.reshape(converted.shape), axis
                 ),
                 ExplicitStackedBasisWithLength(self.vectors).__into_fundamental__(
                     vectors, axis
@@ -743,7 +743,7 @@ class BlochBasis(
             )
 
         return self.vectors_basis[1].__into_fundamental__(
-            unshifted.reshape(vectors_in_basis.shape), axis
+            unshifted.reshape(converted.shape), axis
         )
 
     @property
-- 
2.43.0


From 789ce5c0663dd681942f9edaf4fbc4fc54e3a28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:55 +0000
Subject: [PATCH 32/92] fix: the identity localization operator acts on the
 bands

---
 surface_potential_analysis/wavepacket/localization_operator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/wavepacket/localization_operator.py b/surface_potential_analysis/wavepacket/localization_operator.py
index 7da10f1..a4487f0 100644
--- a/surface_potential_analysis/wavepacket/localization_operator.py
+++ b/surface_potential_analysis/wavepacket/localization_operator.py
@@ -204,7 +204,7 @@ def get_identity_operator(
     return diagonal_operator_list_as_full(
         {
             "basis": TupleBasis(
-                basis[1], TupleBasis(FundamentalBasis(basis[1].n), basis[0])
+                basis[1], TupleBasis(FundamentalBasis(basis[0].n), basis[0])
             ),
             "data": np.ones(basis.n, dtype=np.complex128),
         }
-- 
2.43.0


From 092967f8ef4903272bf2a0ad3f6ea6ccd2afe35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:55 +0000
Subject: [PATCH 33/92] fix: conjugate the bras of the localized hamiltonian

---
 .../wavepacket/localization_operator.py                       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/wavepacket/localization_operator.py b/surface_potential_analysis/wavepacket/localization_operator.py
index a4487f0..41adb26 100644
--- a/surface_potential_analysis/wavepacket/localization_operator.py
+++ b/surface_potential_analysis/wavepacket/localization_operator.py
@@ -138,11 +138,11 @@ def get_localized_hamiltonian_from_eigenvalues(
     """
     converted = np.einsum(  # type: ignore lib
         "dic,cd,djc->dij",
-        operator["data"].reshape(-1, *operator["basis"][1].shape),
+        np.conj(operator["data"].reshape(-1, *operator["basis"][1].shape)),
         hamiltonian["data"].reshape(
             hamiltonian["basis"][0].n, hamiltonian["basis"][1].shape[0]
         ),
-        np.conj(operator["data"].reshape(-1, *operator["basis"][1].shape)),
+        operator["data"].reshape(-1, *operator["basis"][1].shape),
     )
     return {
         "basis": TupleBasis(
-- 
2.43.0


From 953f7318e07df2fa805cebf17978bcf5f0d09fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:55 +0000
Subject: [PATCH 34/92] fix: move wannier states by the points of a unit cell
 when the basis is truncated

---
 surface_potential_analysis/wavepacket/get_eigenstate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/wavepacket/get_eigenstate.py b/surface_potential_analysis/wavepacket/get_eigenstate.py
index dd7b14f..2f90cea 100644
--- a/surface_potential_analysis/wavepacket/get_eigenstate.py
+++ b/surface_potential_analysis/wavepacket/get_eigenstate.py
@@ -907,7 +907,7 @@ def get_wannier_states(
     # for each translation of the wannier functions
     for idx in range(operator["basis"][0].n):
         offset = util.get_stacked_index(idx)
-        shift = tuple(-n * o for (n, o) in zip(wavefunctions["basis"][1].shape, offset))
+        shift = tuple(-n * o for (n, o) in zip(wavefunctions["basis"][1].fundamental_shape, offset))
 
         tanslated = np.roll(
             converted_stacked, shift, axis=tuple(1 + x for x in range(util.ndim))
-- 
2.43.0


From 7f7f409f3059e76394ea5b78af17f5827f90f6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:55 +0000
Subject: [PATCH 35/92] fix: the full wannier hamiltonian is in the order and
 phases of the wannier basis

---
 surface_potential_analysis/wavepacket/get_eigenstate.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/surface_potential_analysis/wavepacket/get_eigenstate.py b/surface_potential_analysis/wavepacket/get_eigenstate.py
index 2f90cea..ff75e75 100644
--- a/surface_potential_analysis/wavepacket/get_eigenstate.py
+++ b/surface_potential_analysis/wavepacket/get_eigenstate.py
@@ -998,10 +998,9 @@ def get_full_wannier_hamiltonian(
         *hamiltonian["basis"][0].shape,
         -1,
     )
-    # is this correct...
-    # I think because H is real symmetric, this ultimately doesn't matter
-    data_stacked = np.fft.fftn(
-        np.fft.ifftn(
+    # The wannier state at offset o has a phase e^(2 pi i l.o / L) at each bloch k
+    data_stacked = np.fft.ifftn(
+        np.fft.fftn(
             hamiltonian_stacked,
             axes=tuple(range(hamiltonian["basis"][0].ndim)),
             norm="ortho",
@@ -1013,7 +1012,7 @@ def get_full_wannier_hamiltonian(
     )
     # Re order to match the correct basis
     data = np.einsum(  # type: ignore lib
-        "ijkl->ikjl",
+        "ijkl->kilj",
         data_stacked.reshape(
             hamiltonian["basis"][0].n,
             hamiltonian["basis"][0].n,
-- 
2.43.0


From ccdfd4f142192cbb9e7e022d0aaadb329f7e67a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:55 +0000
Subject: [PATCH 36/92] fix: localize_position_operator with flat data

---
 .../wavepacket/localization/_operator.py              | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/surface_potential_analysis/wavepacket/localization/_operator.py b/surface_potential_analysis/wavepacket/localization/_operator.py
index b5bac7a..175a164 100644
--- a/surface_potential_analysis/wavepacket/localization/_operator.py
+++ b/surface_potential_analysis/wavepacket/localization/_operator.py
@@ -109,9 +109,12 @@ def _localize_operator(
         {
             "basis": wavepacket["basis"],
             "eigenvalue": wavepacket["eigenvalue"],
-            "data": wavepacket["data"] * vector[:, np.newaxis],
+            "data": (
+                wavepacket["data"].reshape(wavepacket["basis"].shape)
+                * vector[:, np.newaxis]
+            ).reshape(-1),
         }
-        for vector in eigenstates["data"]
+        for vector in eigenstates["data"].reshape(eigenstates["basis"].shape)
     ]
 
 
@@ -172,7 +175,7 @@ def localize_position_operator_many_band(
             "basis": basis,
             "data": np.tensordot(vector, state_vectors, axes=(0, 0)),
         }
-        for vector in eigenstates["data"]
+        for vector in eigenstates["data"].reshape(eigenstates["basis"].shape)
     ]
 
 
@@ -206,5 +209,5 @@ def localize_position_operator_many_band_individual(
             "basis": states[0]["basis"],
             "data": np.tensordot(vector, state_vectors, axes=(0, 0)),
         }
-        for vector in eigenstates["data"]
+        for vector in eigenstates["data"].reshape(eigenstates["basis"].shape)
     ]
-- 
2.43.0


From 6bb48902ea13cd82ae0fc01b392177878f605170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:55 +0000
Subject: [PATCH 37/92] fix: localize at the maximum of wavepackets with flat
 data in truncated bases

---
 .../wavepacket/localization/_tight_binding.py | 23 ++++++++++++-------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/surface_potential_analysis/wavepacket/localization/_tight_binding.py b/surface_potential_analysis/wavepacket/localization/_tight_binding.py
index c8ea059..ada4011 100644
--- a/surface_potential_analysis/wavepacket/localization/_tight_binding.py
+++ b/surface_potential_analysis/wavepacket/localization/_tight_binding.py
@@ -186,7 +186,8 @@ def get_wavepacket_two_points(
     -------
     tuple[SingleStackedIndexLike, SingleStackedIndexLike]
     """
-    util = BasisUtil(wavepacket["basis"][1])
+    unit_cell = stacked_basis_as_fundamental_position_basis(wavepacket["basis"][1])
+    util = BasisUtil(unit_cell)
     origin = (util.shape[0] * offset[0], util.shape[1] * offset[1], 0)
 
     converted = convert_state_vector_to_position_basis(
@@ -197,9 +198,9 @@ def get_wavepacket_two_points(
         SingleStackedIndexLike,
         converted_util.get_stacked_index(np.argmax(np.abs(converted["data"]), axis=-1)),
     )
-    idx_0 = wrap_index_around_origin(wavepacket["basis"][1], idx_0, origin=origin)
+    idx_0 = wrap_index_around_origin(unit_cell, idx_0, origin=origin)
     idx_1 = get_x01_mirrored_index(idx_0)
-    idx_1 = wrap_index_around_origin(wavepacket["basis"][1], idx_1, origin=origin)
+    idx_1 = wrap_index_around_origin(unit_cell, idx_1, origin=origin)
     return (idx_0, idx_1)
 
 
@@ -291,9 +292,10 @@ def localize_tightly_bound_wavepacket_two_point_max(
     # !         )
     # !     )
     # ! )
-    fixed_eigenvectors = wavepacket["data"] * phases[:, np.newaxis]
+    old_data = wavepacket["data"].reshape(wavepacket["basis"].shape)
+    fixed_eigenvectors = old_data * phases[:, np.newaxis]
 
-    return {"basis": wavepacket["basis"], "data": fixed_eigenvectors}
+    return {"basis": wavepacket["basis"], "data": fixed_eigenvectors.reshape(-1)}
 
 
 @timed
@@ -324,12 +326,17 @@ def localize_tightly_bound_wavepacket_max_point(
     )
     max_idx = cast(SingleFlatIndexLike, np.argmax(np.abs(converted["data"]), axis=-1))
     max_idx = BasisUtil(converted["basis"]).get_stacked_index(max_idx)
-    max_idx = wrap_index_around_origin(wavepacket["basis"][1], max_idx, axes=(0, 1))
+    max_idx = wrap_index_around_origin(
+        stacked_basis_as_fundamental_position_basis(wavepacket["basis"][1]),
+        max_idx,
+        axes=(0, 1),
+    )
 
     bloch_phases = _get_bloch_wavefunction_phases(wavepacket, max_idx)
     global_phases = _get_global_phases(wavepacket, max_idx)
 
     phases = np.exp(-1j * (bloch_phases + global_phases - angle))
-    fixed_eigenvectors = wavepacket["data"] * phases[:, :, np.newaxis]
+    old_data = wavepacket["data"].reshape(wavepacket["basis"].shape)
+    fixed_eigenvectors = old_data * phases[:, np.newaxis]
 
-    return {"basis": wavepacket["basis"], "data": fixed_eigenvectors}
+    return {"basis": wavepacket["basis"], "data": fixed_eigenvectors.reshape(-1)}
-- 
2.43.0


From 446480366d3001a302862447fb77d04ed18bec27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:55 +0000
Subject: [PATCH 38/92] fix: gaussian and exponential states are centred in the
 unit cell

---
 .../wavepacket/localization/_projection.py    | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/surface_potential_analysis/wavepacket/localization/_projection.py b/surface_potential_analysis/wavepacket/localization/_projection.py
index 1e65bd1..2f2840b 100644
--- a/surface_potential_analysis/wavepacket/localization/_projection.py
+++ b/surface_potential_analysis/wavepacket/localization/_projection.py
@@ -298,15 +298,16 @@ def get_exponential_state(
     origin_stacked = (
         origin if isinstance(origin, tuple) else util.get_stacked_index(origin)
     )
-    origin_stacked = wrap_index_around_origin(wavepacket["basis"], origin_stacked)
+    unit_cell = stacked_basis_as_fundamental_position_basis(wavepacket["basis"][1])
+    origin_stacked = wrap_index_around_origin(unit_cell, origin_stacked)
 
     coordinates = wrap_index_around_origin(
         state_0["basis"], util.stacked_nx_points, origin=origin_stacked
     )
-    unit_cell_util = BasisUtil(wavepacket["basis"])
-    dx0 = coordinates[0] - origin_stacked[0] / unit_cell_util.fundamental_shape[0]
-    dx1 = coordinates[1] - origin_stacked[1] / unit_cell_util.fundamental_shape[1]
-    dx2 = coordinates[2] - origin_stacked[2] / unit_cell_util.fundamental_shape[2]
+    dx = tuple(
+        (c - o) / w
+        for (c, o, w) in zip(coordinates, origin_stacked, unit_cell.shape, strict=True)
+    )
 
     out: StateVector[
         TupleBasisWithLengthLike[*tuple[FundamentalPositionBasis[Any, Any], ...]]
@@ -314,7 +315,7 @@ def get_exponential_state(
         "basis": state_0["basis"],
         "data": np.zeros_like(state_0["data"]),
     }
-    out["data"] = np.exp(-(dx0**2 + dx1**2 + dx2**2))
+    out["data"] = np.exp(-np.sum(np.square(dx), axis=(0)))
     out["data"] /= np.linalg.norm(out["data"])  # type: ignore can be float
     return out
 
@@ -389,15 +390,15 @@ def get_gaussian_states(
     origin_stacked = (
         origin if isinstance(origin, tuple) else util.get_stacked_index(origin)
     )
-    origin_stacked = wrap_index_around_origin(wavepacket["basis"], origin_stacked)
+    unit_cell = stacked_basis_as_fundamental_position_basis(wavepacket["basis"][1])
+    origin_stacked = wrap_index_around_origin(unit_cell, origin_stacked)
 
     coordinates = wrap_index_around_origin(
         basis, util.stacked_nx_points, origin=origin_stacked
     )
-    unit_cell_shape = (wavepacket["basis"]).shape
     dx = tuple(
         (c - o) / w
-        for (c, o, w) in zip(coordinates, origin_stacked, unit_cell_shape, strict=True)
+        for (c, o, w) in zip(coordinates, origin_stacked, unit_cell.shape, strict=True)
     )
 
     out: StateVectorList[
-- 
2.43.0


From 789c57803ebb076c60f70795da40650cb851c4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:17 +0000
Subject: [PATCH 39/92] fix: get_jump_matrix_from_a_matrix reads the basis of
 the states

---
 .../dynamics/incoherent_propagation/tunnelling_matrix.py      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py b/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
index 5ae5e51..e81e237 100644
--- a/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
+++ b/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
@@ -93,8 +93,8 @@ def get_jump_matrix_from_a_matrix(
     -------
     TunnellingJumpMatrix[_L2Inv]
     """
-    n_bands = matrix["basis"][2].fundamental_n
-    util = BasisUtil(matrix["basis"])
+    n_bands = matrix["basis"][0][2].fundamental_n
+    util = BasisUtil(matrix["basis"][0])
     stacked = matrix["data"].reshape(*util.shape, *util.shape)
     data = np.zeros((n_bands, n_bands, 9), dtype=np.complex128)
     for n_0 in range(n_bands):
-- 
2.43.0


From 1282e5023b948963d25572fa7565c13f4e6ab119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:17 +0000
Subject: [PATCH 40/92] fix: get_a_matrix_from_jump_matrix for all bands, and
 for fewer of them

---
 .../dynamics/incoherent_propagation/tunnelling_matrix.py      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py b/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
index e81e237..f420e4c 100644
--- a/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
+++ b/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
@@ -169,12 +169,12 @@ def get_a_matrix_from_jump_matrix(
     -------
     TunnellingAMatrix[ tuple[ FundamentalBasis[_L0Inv], FundamentalBasis[_L1Inv], TunnellingSimulationBandsBasis[int], ] ]
     """
-    n_bands = matrix["basis"].fundamental_n if n_bands is None else n_bands
+    n_bands = matrix["basis"][0].fundamental_n if n_bands is None else n_bands
     final_basis = get_basis_from_shape(shape, n_bands, matrix["basis"][0])
     final_util = BasisUtil(final_basis)
 
     (n_x0, n_x1) = shape
-    jump_stacked = matrix["data"].reshape(n_bands, n_bands, 9)
+    jump_stacked = matrix["data"].reshape(*matrix["basis"].shape, 9)
     array = np.zeros((*final_util.shape, *final_util.shape), dtype=np.complex128)
     for n_0 in range(n_bands):
         for n_1 in range(n_bands):
-- 
2.43.0


From 29a0fd88cfcb30ee75020071ede8d32a5606c070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:17 +0000
Subject: [PATCH 41/92] fix: get_a_matrix_reduced_bands reads the basis of the
 states

---
 .../dynamics/incoherent_propagation/tunnelling_matrix.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py b/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
index f420e4c..372a507 100644
--- a/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
+++ b/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
@@ -272,7 +272,7 @@ def get_a_matrix_reduced_bands(
     -------
     TunnellingMMatrix[tuple[_AX0Inv, _AX1Inv, TunnellingSimulationBandsBasis[_L1Inv]]]
     """
-    util = BasisUtil(matrix["basis"])
+    util = BasisUtil(matrix["basis"][0])
     a_basis = TupleBasis(
         matrix["basis"][0][0],
         matrix["basis"][0][1],
-- 
2.43.0


From 0dd76a82c3da97ca2d7b79c6e97c10037bbdf52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:17 +0000
Subject: [PATCH 42/92] fix: get_tunnelling_m_matrix leaves its argument
 unchanged

---
 .../dynamics/incoherent_propagation/tunnelling_matrix.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py b/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
index 372a507..7c8d2ae 100644
--- a/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
+++ b/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
@@ -329,7 +329,7 @@ def get_tunnelling_m_matrix(
     TunnellingMMatrix
     """
     matrix = matrix if n_bands is None else get_a_matrix_reduced_bands(matrix, n_bands)
-    data = matrix["data"].reshape(matrix["basis"].shape)
+    data = matrix["data"].reshape(matrix["basis"].shape).copy()
     np.fill_diagonal(data, 0)
     array = data.T - np.diag(np.sum(data, axis=1))
     return {"basis": matrix["basis"], "data": array}
-- 
2.43.0


From 7e680a7120f73f966556da91489140010b9aa09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:17 +0000
Subject: [PATCH 43/92] fix: density_matrix_as_probability gives the basis of
 the states

---
 .../dynamics/incoherent_propagation/tunnelling_matrix.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py b/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
index 7c8d2ae..997252e 100644
--- a/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
+++ b/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
@@ -373,7 +373,7 @@ def density_matrix_as_probability(
     -------
     ProbabilityVector[_B0Inv]
     """
-    return {"basis": matrix["basis"], "data": np.real(matrix["data"])}  # type: ignore[typeddict-item]
+    return {"basis": matrix["basis"][0], "data": np.real(matrix["data"])}  # type: ignore[typeddict-item]
 
 
 def density_matrix_list_as_probabilities(
-- 
2.43.0


From da3e4a6c0b16d5e0a1fcc4efb76aed93a63ced6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:17 +0000
Subject: [PATCH 44/92] fix: calculate_equilibrium_state_averaged_isf reads the
 basis of the states

---
 .../dynamics/incoherent_propagation/isf.py                 | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/surface_potential_analysis/dynamics/incoherent_propagation/isf.py b/surface_potential_analysis/dynamics/incoherent_propagation/isf.py
index d35fc80..825292c 100644
--- a/surface_potential_analysis/dynamics/incoherent_propagation/isf.py
+++ b/surface_potential_analysis/dynamics/incoherent_propagation/isf.py
@@ -96,7 +96,7 @@ def calculate_equilibrium_state_averaged_isf(
     -------
     EigenvalueList[_L0Inv]
     """
-    util = BasisUtil(matrix["basis"])
+    util = BasisUtil(matrix["basis"][0])
     eigenstates = calculate_tunnelling_eigenstates(matrix)
     equilibrium = get_equilibrium_state(eigenstates)
 
@@ -114,7 +114,7 @@ def calculate_equilibrium_state_averaged_isf(
         isf = calculate_isf_approximate_locations(
             initial_probability, final_probabilities, dk
         )
-        eigenvalues[band] = isf
+        eigenvalues[band] = isf["data"]
     isf_per_band: SingleBasisDiagonalOperator[
         TupleBasis[FundamentalBasis[int], ExplicitTimeBasis[_L0Inv]]
     ] = {
@@ -127,7 +127,8 @@ def calculate_equilibrium_state_averaged_isf(
     averaged = average_eigenvalues(
         isf_per_band, (0,), weights=np.abs(occupation_probabilities["data"])
     )
-    return {"basis": averaged["basis"][0][0], "data": averaged["data"]}
+    time_basis = averaged["basis"][0][0]
+    return {"basis": TupleBasis(time_basis, time_basis), "data": averaged["data"]}
 
 
 def calculate_equilibrium_initial_state_isf(
-- 
2.43.0


From 55b3401e4ada2171e1f5b76ad48b9bfc7b09d124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:17 +0000
Subject: [PATCH 45/92] fix: calculate_equilibrium_initial_state_isf reads the
 basis of the states

---
 .../dynamics/incoherent_propagation/isf.py          | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/surface_potential_analysis/dynamics/incoherent_propagation/isf.py b/surface_potential_analysis/dynamics/incoherent_propagation/isf.py
index 825292c..0575f39 100644
--- a/surface_potential_analysis/dynamics/incoherent_propagation/isf.py
+++ b/surface_potential_analysis/dynamics/incoherent_propagation/isf.py
@@ -151,10 +151,9 @@ def calculate_equilibrium_initial_state_isf(
     """
     eigenstates = calculate_tunnelling_eigenstates(matrix)
 
-    vectors = np.zeros(
-        (matrix["basis"].shape[2], times.size, matrix["basis"].n), dtype=np.complex128
-    )
-    for band in range(matrix["basis"].shape[2]):
+    util = BasisUtil(matrix["basis"][0])
+    vectors = np.zeros((util.shape[2], times.size, util.n), dtype=np.float64)
+    for band in range(util.shape[2]):
         initial_state = get_initial_pure_density_matrix_for_basis(
             matrix["basis"][0], (0, 0, band)
         )
@@ -165,9 +164,7 @@ def calculate_equilibrium_initial_state_isf(
         TupleBasis[FundamentalBasis[int], ExplicitTimeBasis[_L0Inv]], _B0Inv
     ] = {
         "basis": TupleBasis(
-            TupleBasis(
-                FundamentalBasis(matrix["basis"].shape[2]), ExplicitTimeBasis(times)
-            ),
+            TupleBasis(FundamentalBasis(util.shape[2]), ExplicitTimeBasis(times)),
             matrix["basis"][0],
         ),
         "data": vectors.reshape(-1),
@@ -177,7 +174,7 @@ def calculate_equilibrium_initial_state_isf(
     occupation_probabilities = sum_probability(
         density_matrix_as_probability(equilibrium), (0, 1)
     )
-    vector = np.zeros(matrix["basis"].shape, dtype=np.complex128)
+    vector = np.zeros(util.shape, dtype=np.float64)
     vector[0, 0, :] = occupation_probabilities["data"]
     initial: ProbabilityVector[_B0Inv] = {
         "basis": matrix["basis"][0],
-- 
2.43.0


From c86a00384b9cde4f08b6004a92deb17ad889dafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:17 +0000
Subject: [PATCH 46/92] fix: get_rate_decomposition gives the rates

---
 .../dynamics/incoherent_propagation/isf.py                      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/incoherent_propagation/isf.py b/surface_potential_analysis/dynamics/incoherent_propagation/isf.py
index 0575f39..f2bfcf2 100644
--- a/surface_potential_analysis/dynamics/incoherent_propagation/isf.py
+++ b/surface_potential_analysis/dynamics/incoherent_propagation/isf.py
@@ -213,4 +213,4 @@ def get_rate_decomposition(
     """
     eigenstates = calculate_tunnelling_eigenstates(matrix)
     coefficients = get_operator_state_vector_decomposition(initial, eigenstates)
-    return RateDecomposition(eigenstates["data"], coefficients)
+    return RateDecomposition(eigenstates["eigenvalue"], coefficients)
-- 
2.43.0


From 4dbed576c3c1b927f31d31d9df6abbb4a80eff93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:17 +0000
Subject: [PATCH 47/92] fix: locations of bands from wavepackets are fractions
 of the unit cell

---
 surface_potential_analysis/dynamics/tunnelling_basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/tunnelling_basis.py b/surface_potential_analysis/dynamics/tunnelling_basis.py
index 99f6977..78036f2 100644
--- a/surface_potential_analysis/dynamics/tunnelling_basis.py
+++ b/surface_potential_analysis/dynamics/tunnelling_basis.py
@@ -64,7 +64,7 @@ class TunnellingSimulationBandsBasis(FundamentalBasis[_L0_co]):
         for i, w in enumerate(wavepacket_list_into_iter(wavepackets)):
             idx0, idx1 = get_wavepacket_two_points(w)
             location = np.average([idx0, idx1], axis=0)  # type: ignore lib
-            locations[:, i] = location[0:2]
+            locations[:, i] = location[0:2] / np.array(util.fundamental_shape[0:2])
         return cls(locations, tuple(util.delta_x_stacked[0:2, 0:2]))  # type: ignore[arg-type]
 
 
-- 
2.43.0


From f7bb63553aa7122569b446199380488e3f7f36d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:17 +0000
Subject: [PATCH 48/92] fix: isf fits move the rates away from the initial
 guess

---
 surface_potential_analysis/dynamics/isf.py | 29 ++++++++++++++--------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/surface_potential_analysis/dynamics/isf.py b/surface_potential_analysis/dynamics/isf.py
index 4e8e6f6..3fb67c8 100644
--- a/surface_potential_analysis/dynamics/isf.py
+++ b/surface_potential_analysis/dynamics/isf.py
@@ -178,17 +178,20 @@ def fit_isf_to_double_exponential(
     ) -> np.ndarray[Any, Any]:
         return a * np.exp(-(b) * t) + c * np.exp(-(d) * t) + (1 - a - c)
 
+    # The model depends only on rate * time. Rates in SI units are too large for
+    # the optimizer, which would not move them away from the initial guess
+    scale = 1e10
     params, _ = scipy.optimize.curve_fit(  # type: ignore lib
         f,
-        isf["basis"][0].times,
+        scale * isf["basis"][0].times,
         data,
-        p0=(0.5, 2e10, 0.5, 1e10),
+        p0=(0.5, 2, 0.5, 1),
         bounds=([0, 0, 0, 0], [1, np.inf, 1, np.inf]),
     )
     return ISF4VariableFit(
-        params[1],  # type: ignore lib
+        scale * params[1],  # type: ignore lib
         params[0],  # type: ignore lib
-        params[3],  # type: ignore lib
+        scale * params[3],  # type: ignore lib
         params[2],  # type: ignore lib
         1 - params[0] - params[2],  # type: ignore lib
     )
@@ -597,14 +600,17 @@ def fit_isf_to_fey_model_110(
     ) -> np.ndarray[Any, Any]:
         return calculate_isf_fey_model_110(t, f, s, a_dk=a_dk)
 
+    # The model depends only on rate * time. Rates in SI units are too large for
+    # the optimizer, which would not move them away from the initial guess
+    scale = 1e9
     params, _ = scipy.optimize.curve_fit(  # type: ignore lib
         f,
-        isf["basis"][0].times,
+        scale * isf["basis"][0].times,
         data,
-        p0=(1.4e9, 3e8),
+        p0=(1.4, 0.3),
         bounds=([0, 0], [np.inf, np.inf]),
     )
-    return ISFFeyModelFit(params[0], params[1], a_dk=a_dk)  # type: ignore lib
+    return ISFFeyModelFit(scale * params[0], scale * params[1], a_dk=a_dk)  # type: ignore lib
 
 
 def fit_isf_to_fey_model_112bar(
@@ -634,11 +640,14 @@ def fit_isf_to_fey_model_112bar(
     ) -> np.ndarray[Any, Any]:
         return calculate_isf_fey_model_112bar(t, f, s, a_dk=a_dk)
 
+    # The model depends only on rate * time. Rates in SI units are too large for
+    # the optimizer, which would not move them away from the initial guess
+    scale = 1e10
     params, _ = scipy.optimize.curve_fit(  # type: ignore lib
         f,
-        isf["basis"][0].times,
+        scale * isf["basis"][0].times,
         data,
-        p0=(2e10, 1e10),
+        p0=(2, 1),
         bounds=([0, 0], [np.inf, np.inf]),
     )
-    return ISFFeyModelFit(params[0], params[1], a_dk=a_dk)  # type: ignore lib
+    return ISFFeyModelFit(scale * params[0], scale * params[1], a_dk=a_dk)  # type: ignore lib
-- 
2.43.0


From ec05918138fa4d24dd7434ab38a27c4b82f2da94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:28 +0000
Subject: [PATCH 49/92] fix: sho subtracted hamiltonian can build its
 oscillator basis

infinate_sho_basis_3d_from_config took n as keyword only; its caller passes it by position.
---
 surface_potential_analysis/stacked_basis/sho_basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/stacked_basis/sho_basis.py b/surface_potential_analysis/stacked_basis/sho_basis.py
index 4c6d36a..2802997 100644
--- a/surface_potential_analysis/stacked_basis/sho_basis.py
+++ b/surface_potential_analysis/stacked_basis/sho_basis.py
@@ -151,7 +151,7 @@ def sho_basis_3d_from_config(
 
 
 def infinate_sho_basis_3d_from_config(
-    parent: BasisWithLengthLike3d[_LF0Inv, _L1Inv], config: SHOBasisConfig, *, n: int
+    parent: BasisWithLengthLike3d[_LF0Inv, _L1Inv], config: SHOBasisConfig, n: int
 ) -> ExplicitBasisWithLength[Any, Any]:
     """
     Generate an explicit sho basis assuming an infinate extent in the z direction.
-- 
2.43.0


From 30c57471ea9c02190f1404f709f17ff350bf9183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:02 +0000
Subject: [PATCH 50/92] fix: get_collapse_operators_from_a_matrix leaves its
 argument alone

---
 .../dynamics/stochastic_schrodinger/solve.py                    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
index 764070e..9e3d38b 100644
--- a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
+++ b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
@@ -118,7 +118,7 @@ def get_collapse_operators_from_a_matrix(
     -------
     list[SingleBasisOperator[ tuple[ FundamentalBasis[_L0Inv], FundamentalBasis[_L1Inv], TunnellingSimulationBandsBasis[_L2Inv]]]]
     """
-    data = matrix["data"].reshape(matrix["basis"].shape)
+    data = matrix["data"].reshape(matrix["basis"].shape).copy()
     np.fill_diagonal(data, 0)
     return [
         {
-- 
2.43.0


From 1337caa925dfece18f4ee237d546477d5b279187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:02 +0000
Subject: [PATCH 51/92] fix: get_collapse_operators_from_function builds
 operators of the full size

---
 .../dynamics/stochastic_schrodinger/solve.py                    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
index 9e3d38b..8aec93e 100644
--- a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
+++ b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
@@ -229,7 +229,7 @@ def get_collapse_operators_from_function(
                 (i1, j1) = (i0 + d1_stacked[0], j0 + d1_stacked[1])
                 j = np.ravel_multi_index((i1, j1, n1), (*shape, n_bands), mode="wrap")
 
-                data = np.zeros(shape, dtype=np.complex128)
+                data = np.zeros(array.shape, dtype=np.complex128)
                 data[i, j] = a_function(
                     int(n0), n1, (0, 0), (d1_stacked[0], d1_stacked[1])
                 )
-- 
2.43.0


From 816678829030a2b002ee0f1219df27c14069ebd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:02 +0000
Subject: [PATCH 52/92] fix: qutip stochastic solver scales collapse operators
 by sqrt(hbar)

---
 .../dynamics/stochastic_schrodinger/solve.py                    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
index 8aec93e..6afb2d4 100644
--- a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
+++ b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
@@ -297,7 +297,7 @@ def solve_stochastic_schrodinger_equation(  # type: ignore bad overload
     initial_state_qobj = qutip.Qobj(initial_state["data"])
 
     sc_ops = [
-        qutip.Qobj(op["data"].reshape(op["basis"].shape) / hbar).to("CSR")
+        qutip.Qobj(op["data"].reshape(op["basis"].shape) / np.sqrt(hbar)).to("CSR")
         for op in collapse_operators
     ]
     result = qutip.ssesolve(
-- 
2.43.0


From 2f9719b569793f2ad83ce6403b3c13cfb6a40fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:02 +0000
Subject: [PATCH 53/92] fix: solve_stochastic_schrodinger_equation_rust steps
 by the fundamental time step

---
 .../dynamics/stochastic_schrodinger/solve.py                    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
index 6afb2d4..676bdc4 100644
--- a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
+++ b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
@@ -397,7 +397,7 @@ def solve_stochastic_schrodinger_equation_rust(  # type: ignore bad overload
         SimulationConfig(
             n=times.n,
             step=times.step,
-            dt=times.dt,
+            dt=times.fundamental_dt,
             n_trajectories=n_trajectories,
             n_realizations=n_realizations,
             method="Euler",
-- 
2.43.0


From 54eafb73f00437f84e87f5074d4b203c54e6a8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:02 +0000
Subject: [PATCH 54/92] fix: banded solver runs without collapse operators

---
 .../dynamics/stochastic_schrodinger/solve.py               | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
index 676bdc4..8c1dd9f 100644
--- a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
+++ b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
@@ -518,7 +518,12 @@ def solve_stochastic_schrodinger_equation_rust_banded(  # type: ignore bad overl
 
     # We get the best numerical performace if we set the norm of the largest collapse operators
     # to be one. This prevents us from accumulating large errors when multiplying state * dt * operator * conj_operator
-    max_norm = np.max(operators_norm)
+    # Without any collapse operators, we instead make the norm of the hamiltonian one
+    max_norm = (
+        np.max(operators_norm)
+        if operators_norm
+        else np.sqrt(np.linalg.norm(hamiltonian["data"]))
+    )
     dt = (times.fundamental_dt * max_norm**2 / hbar).item()
 
     banded_collapse = _get_banded_operators(
-- 
2.43.0


From 552a13d735bb44f627017dfed4265d865fff3f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:02 +0000
Subject: [PATCH 55/92] fix: localized states are normalized by their
 occupation

---
 .../dynamics/stochastic_schrodinger/solve.py                | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
index 8c1dd9f..7bc1b6f 100644
--- a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
+++ b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
@@ -606,12 +606,14 @@ def _select_random_localized_state(
     # Vectors representing the combination of states that diagonalizes rho
     eigenstates = calculate_eigenvectors_hermitian(op)
 
-    probabilities = eigenstates["eigenvalue"]
+    # Rounding errors can leave an unoccupied state with a small negative probability
+    probabilities = np.clip(eigenstates["eigenvalue"], 0, None)
     probabilities /= np.sum(probabilities)
 
     idx = rng.choice(probabilities.size, p=probabilities)
     transformation = get_state_vector(eigenstates, idx)
-    transformation["data"] /= np.sqrt(2)
+    # Each state has a norm given by its occupation
+    transformation["data"] /= np.sqrt(states["basis"][0].n * probabilities[idx])
     return get_weighted_state_vector(states, transformation)
 
 
-- 
2.43.0


From e99ac35a2a073d431378b68beff4a2ba32060bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:03 +0000
Subject: [PATCH 56/92] fix: localized solver evolves all realizations by dt
 between outputs

---
 .../dynamics/stochastic_schrodinger/solve.py               | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
index 7bc1b6f..c510587 100644
--- a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
+++ b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
@@ -661,17 +661,18 @@ def solve_stochastic_schrodinger_equation_localized(  # type: ignore bad overloa
 
     for trajectory in range(n_trajectories):
         state = initial_state
-        for t in range(times.n):
+        data[trajectory, 0] = state["data"]
+        for t in range(1, times.n):
             result = solve_stochastic_schrodinger_equation(
                 state,
-                EvenlySpacedTimeBasis(2, times.step, 0, times.dt),
+                EvenlySpacedTimeBasis(2, times.step, 0, 2 * times.dt),
                 hamiltonian,
                 collapse_operators,
                 n_trajectories=n_realizations,
             )
             # Re-localize our state
             state = _select_random_localized_state(
-                get_state_along_axis(result, axes=(1,), idx=(1,))
+                get_state_along_axis(result, axes=(0,), idx=(1,))
             )
 
             data[trajectory, t] = state["data"]
-- 
2.43.0


From 27c005c9258025493123151d4bf30a369fa4ac7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:04 +0000
Subject: [PATCH 57/92] fix: overlaps shift states along each axis of the grid

---
 surface_potential_analysis/overlap/calculation.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/surface_potential_analysis/overlap/calculation.py b/surface_potential_analysis/overlap/calculation.py
index 260f90e..f33ee80 100644
--- a/surface_potential_analysis/overlap/calculation.py
+++ b/surface_potential_analysis/overlap/calculation.py
@@ -10,7 +10,6 @@ from surface_potential_analysis.basis.stacked_basis import (
     TupleBasis,
     TupleBasisLike,
 )
-from surface_potential_analysis.basis.util import BasisUtil
 from surface_potential_analysis.stacked_basis.conversion import (
     stacked_basis_as_fundamental_position_basis,
 )
@@ -101,12 +100,13 @@ def calculate_state_vector_list_overlap(
     Overlap[TupleBasisLike[*tuple[FundamentalPositionBasis[Any, Any], ...]], _B1, _B1].
     """
     stacked = states["data"].reshape(states["basis"].shape)
-    shift = (
-        BasisUtil(states["basis"][1]).get_flat_index(shift, mode="wrap")
-        if isinstance(shift, tuple)
-        else shift
-    )
-    stacked_shifted = np.roll(stacked, shift, axis=(1))
+    # Each axis wraps on its own, so a stacked shift must be applied along each axis
+    shape = states["basis"][1].shape if isinstance(shift, tuple) else (-1,)
+    stacked_shifted = np.roll(
+        stacked.reshape(stacked.shape[0], *shape),
+        shift,
+        axis=tuple(range(1, 1 + len(shape))),
+    ).reshape(stacked.shape)
     # stacked = i, j where i indexes the state and j indexes the position
     data = np.conj(stacked)[np.newaxis, :, :] * (stacked_shifted[:, np.newaxis, :])
     return {
-- 
2.43.0


From e53312adfe22b8b366380b7bc61ab4524c78f1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:04 +0000
Subject: [PATCH 58/92] fix: momentum fractions of overlaps use the size of
 their own axis

---
 surface_potential_analysis/overlap/interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/overlap/interpolation.py b/surface_potential_analysis/overlap/interpolation.py
index de9fc73..eb3f93c 100644
--- a/surface_potential_analysis/overlap/interpolation.py
+++ b/surface_potential_analysis/overlap/interpolation.py
@@ -69,7 +69,7 @@ def get_overlap_momentum_interpolator_k_fractions(
         overlap["basis"][0], util.stacked_nx_points, axes=(0, 1)
     )
     x_fractions = np.asarray(nx_points_wrapped, dtype=float)[:, :, np.newaxis]
-    x_fractions /= util.shape[0]
+    x_fractions /= np.array(util.shape)[:, np.newaxis, np.newaxis]
 
     def _interpolator(
         k_fractions: ArrayStackedIndexFractionLike[_S0Inv],
-- 
2.43.0


From a3e137cd2f40baddef8334386a4e2abba4e19c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:04 +0000
Subject: [PATCH 59/92] fix: angle averaged overlap does not count the first
 angle twice

---
 surface_potential_analysis/overlap/interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/overlap/interpolation.py b/surface_potential_analysis/overlap/interpolation.py
index eb3f93c..b10dd90 100644
--- a/surface_potential_analysis/overlap/interpolation.py
+++ b/surface_potential_analysis/overlap/interpolation.py
@@ -191,7 +191,7 @@ def get_angle_averaged_diagonal_overlap_function(
     -------
     np.ndarray[tuple[int], np.dtype[np.float_]]
     """
-    theta = np.linspace(0, 2 * np.pi, theta_samples)
+    theta = np.linspace(0, 2 * np.pi, theta_samples, endpoint=False)
     averages = list[np.float64]()
     for q in abs_q.ravel():
         k_points = q * np.array([np.cos(theta), np.sin(theta)])
-- 
2.43.0


From 628949986afd8cdbd7ae58cc05a6673f1e0eee0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:09 +0000
Subject: [PATCH 60/92] fix: lowest path of a potential is searched in the
 position basis

---
 surface_potential_analysis/potential/plot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/potential/plot.py b/surface_potential_analysis/potential/plot.py
index 66a0f37..52d5161 100644
--- a/surface_potential_analysis/potential/plot.py
+++ b/surface_potential_analysis/potential/plot.py
@@ -441,7 +441,8 @@ def get_minimum_path(
         The complete path after finding the minimum at each coordinate
     """
     axis = axis % potential["basis"].ndim
-    min_idx = np.argmin(potential["data"].reshape(potential["basis"].shape), axis=axis)
+    converted = convert_potential_to_position_basis(potential)
+    min_idx = np.argmin(converted["data"].reshape(converted["basis"].shape), axis=axis)
     wrapped = np.ravel_multi_index(path, min_idx.shape, mode="wrap")
     return np.insert(path, axis, min_idx.flat[wrapped], axis=0)
 
-- 
2.43.0


From e5b0529220d9053fd5932d5979e37ccd5ebc67c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:09 +0000
Subject: [PATCH 61/92] fix: potentials loaded from json hold flat data

---
 surface_potential_analysis/potential/potential.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/potential/potential.py b/surface_potential_analysis/potential/potential.py
index ac1d199..10d51f7 100644
--- a/surface_potential_analysis/potential/potential.py
+++ b/surface_potential_analysis/potential/potential.py
@@ -111,7 +111,7 @@ def load_potential_grid_json(
                 FundamentalPositionBasis(np.array(out["delta_x1"]), points.shape[1]),
                 FundamentalPositionBasis(np.array(out["delta_x2"]), points.shape[2]),
             ),
-            "data": np.array(out["points"]),
+            "data": points.reshape(-1),
         }
 
 
@@ -182,7 +182,7 @@ def load_uneven_potential_json(
                 FundamentalPositionBasis(np.array(out["delta_x1"]), points.shape[1]),
                 UnevenPotential3dZBasis(np.array(out["z_points"])),
             ),
-            "data": points,
+            "data": points.reshape(-1),
         }
 
 
-- 
2.43.0


From acd1bc7acf9268e6826d45734754f94cbffd1f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:09 +0000
Subject: [PATCH 62/92] fix: undo_truncate_potential inverts truncate_potential
 for any exponent

---
 surface_potential_analysis/potential/potential.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/potential/potential.py b/surface_potential_analysis/potential/potential.py
index 10d51f7..ed46e59 100644
--- a/surface_potential_analysis/potential/potential.py
+++ b/surface_potential_analysis/potential/potential.py
@@ -228,7 +228,10 @@ def undo_truncate_potential(
     data: Potential[_SB0], *, cutoff: float = 2e-17, n: int = 1, offset: float = 2e-18
 ) -> Potential[_SB0]:
     """Reverses truncate_potential."""
-    points = cutoff * (np.exp((data["data"] + offset) / cutoff) - 1) ** (1 / n) - offset
+    points = (
+        cutoff * (np.exp(((data["data"] + offset) / cutoff) ** n) - 1) ** (1 / n)
+        - offset
+    )
     return {"data": points, "basis": data["basis"]}  # type: ignore[return-value]
 
 
-- 
2.43.0


From 03df67ef8bbc04b243343ec32e860e9720a93d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:08 +0000
Subject: [PATCH 63/92] fix: average positions and wavevectors of states on
 several axes

---
 surface_potential_analysis/state_vector/plot.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/surface_potential_analysis/state_vector/plot.py b/surface_potential_analysis/state_vector/plot.py
index e0aba67..93453de 100644
--- a/surface_potential_analysis/state_vector/plot.py
+++ b/surface_potential_analysis/state_vector/plot.py
@@ -992,7 +992,11 @@ def _get_average_x_periodic(
 
     return {
         "basis": periodic_x["basis"],
-        "data": (angle * states["basis"][1].delta_x_stacked[axis] / (2 * np.pi)),
+        "data": (
+            angle
+            * np.linalg.norm(states["basis"][1].delta_x_stacked[axis])
+            / (2 * np.pi)
+        ),
     }
 
 
@@ -1012,7 +1016,9 @@ def _get_restored_x(
     return {
         "basis": periodic_x["basis"],
         "data": (
-            unravelled * states["basis"][1].delta_x_stacked[axis] / (2 * np.pi)
+            unravelled
+            * np.linalg.norm(states["basis"][1].delta_x_stacked[axis])
+            / (2 * np.pi)
         ).ravel(),
     }
 
@@ -1067,7 +1073,8 @@ def _get_x_operator(basis: _SBV0, axis: int) -> SingleBasisOperator[_SBV0]:
     return convert_diagonal_operator_to_basis(
         {
             "basis": TupleBasis(basis_x, basis_x),
-            "data": util.dx_stacked[axis] * util.stacked_nx_points[axis],
+            "data": np.linalg.norm(util.dx_stacked[axis])
+            * util.stacked_nx_points[axis],
         },
         TupleBasis(basis, basis),
     )
@@ -1282,7 +1289,8 @@ def _get_k_operator(basis: _SBV0, axis: int) -> SingleBasisOperator[_SBV0]:
     return convert_diagonal_operator_to_basis(
         {
             "basis": TupleBasis(basis_k, basis_k),
-            "data": util.dk_stacked[axis] * util.stacked_nk_points[axis],
+            "data": np.linalg.norm(util.dk_stacked[axis])
+            * util.stacked_nk_points[axis],
         },
         TupleBasis(basis, basis),
     )
-- 
2.43.0


From d39faee1abb667dad6fb150e2541f8b51fe20371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:08 +0000
Subject: [PATCH 64/92] fix: spread of states leaves the states as they are

---
 .../state_vector/plot.py                       | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/surface_potential_analysis/state_vector/plot.py b/surface_potential_analysis/state_vector/plot.py
index 93453de..e34eb4d 100644
--- a/surface_potential_analysis/state_vector/plot.py
+++ b/surface_potential_analysis/state_vector/plot.py
@@ -1129,6 +1129,14 @@ def plot_averaged_occupation_1d_x(
     return fig, ax
 
 
+def _get_normalized_states(
+    states: StateVectorList[_B0Inv, _SBV0],
+) -> StateVectorList[_B0Inv, _SBV0]:
+    data = states["data"].reshape(states["basis"].shape)
+    data = data / np.linalg.norm(data, axis=1)[:, np.newaxis]
+    return {"basis": states["basis"], "data": data.ravel()}
+
+
 def _get_x_spread(
     states: StateVectorList[
         _B0Inv,
@@ -1158,11 +1166,7 @@ def _get_x_spread(
     """
     direction = tuple(1 if i == axis else 0 for i in range(states["basis"][1].ndim))
 
-    data = states["data"].reshape(states["basis"].shape)
-    data /= np.linalg.norm(data, axis=1)[:, np.newaxis]
-
-    states["data"] = data.ravel()
-    periodic_x = _get_periodic_x(states, direction)
+    periodic_x = _get_periodic_x(_get_normalized_states(states), direction)
     norm = np.abs(periodic_x["data"])
     q = 2 * np.pi / np.linalg.norm(states["basis"][1].delta_x_stacked[axis])
     sigma_0 = np.sqrt(-(4 / q**2) * np.log(norm))
@@ -1190,7 +1194,7 @@ def get_coherent_coordinates(
     """
     sigma_0 = _get_x_spread(states, axis)
     x0 = _get_average_x_periodic(states, axis)
-    k0 = _get_average_k(states, axis)
+    k0 = _get_average_k(_get_normalized_states(states), axis)
     return {
         "basis": TupleBasis(
             FundamentalBasis[Literal[3]](3),
@@ -1375,7 +1379,7 @@ def plot_spread_against_k(
     fig, ax = get_figure(ax)
 
     spread_x = _get_x_spread(states, axes[0])
-    k = _get_average_k(states, axes[0])
+    k = _get_average_k(_get_normalized_states(states), axes[0])
 
     ax.plot(k["data"], spread_x["data"])  # type: ignore unknown
 
-- 
2.43.0


From daed7e0b4e8af37b7ab1f81f21d1c9166a003ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:08 +0000
Subject: [PATCH 65/92] fix: average normalized drift divides by the number of
 pairs

---
 surface_potential_analysis/state_vector/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/state_vector/plot.py b/surface_potential_analysis/state_vector/plot.py
index e34eb4d..6303fc9 100644
--- a/surface_potential_analysis/state_vector/plot.py
+++ b/surface_potential_analysis/state_vector/plot.py
@@ -1633,7 +1633,7 @@ def get_average_normalized_drift(
         )
     # Calculate a_i = sum_j^N-i x_j / k_j
     cumulative = np.cumsum(stacked_x / stacked_k, axis=1)[:, ::-1]
-    diff = cumulative - convolution / cumulative.shape[1]
+    diff = (cumulative - convolution) / np.arange(1, basis[1].n + 1)[::-1]
 
     out_basis = EvenlySpacedTimeBasis(basis[1].n, 1, 0, basis[1].dt * (basis[1].n))  # type: ignore unknown
     return {"basis": TupleBasis(basis[0], out_basis), "data": diff.ravel()}  # type: ignore unknown
-- 
2.43.0


From 7988d82637f8102a229840c697d47daa80ad8731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:08 +0000
Subject: [PATCH 66/92] fix: drift uses the wavevector along the plotted axis

---
 surface_potential_analysis/state_vector/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/state_vector/plot.py b/surface_potential_analysis/state_vector/plot.py
index 6303fc9..a69820c 100644
--- a/surface_potential_analysis/state_vector/plot.py
+++ b/surface_potential_analysis/state_vector/plot.py
@@ -1727,7 +1727,7 @@ def plot_average_drift_1d_x(
     tuple[Figure, Axes, Line2D]
     """
     restored_x = _get_restored_x(states, axes[0])
-    k_points = _get_average_k(states, axis=0)
+    k_points = _get_average_k(states, axis=axes[0])
     drift = get_normalized_average_drift(restored_x, k_points)
 
     return plot_average_value_list_against_time(
-- 
2.43.0


From c454b3978cb69853b22a6cc8e7a3406e69c4bd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:08 +0000
Subject: [PATCH 67/92] fix: average of measured values is plotted as it is

---
 surface_potential_analysis/state_vector/plot_value_list.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/state_vector/plot_value_list.py b/surface_potential_analysis/state_vector/plot_value_list.py
index a116052..749bf17 100644
--- a/surface_potential_analysis/state_vector/plot_value_list.py
+++ b/surface_potential_analysis/state_vector/plot_value_list.py
@@ -304,7 +304,11 @@ def plot_average_value_list_against_time(
     )
     average_data = np.average(measured_data, axis=0)
     fig, ax, line = plot_data_1d(
-        average_data, values["basis"][1].times, scale=scale, measure=measure, ax=ax
+        average_data,
+        values["basis"][1].times,
+        scale=scale,
+        measure="abs" if measure == "abs" else "real",
+        ax=ax,
     )
     std_data = np.std(measured_data, axis=0) / np.sqrt(values["basis"].shape[0])
     fill = ax.fill_between(  # type: ignore unkown
-- 
2.43.0


From 6b568580714f2beeca4d3e92fb80085f2644e15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:27 +0000
Subject: [PATCH 68/92] fix: indices of the largest value are those of the
 momentum data

---
 surface_potential_analysis/util/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/util/plot.py b/surface_potential_analysis/util/plot.py
index 46bdf18..60c3250 100644
--- a/surface_potential_analysis/util/plot.py
+++ b/surface_potential_analysis/util/plot.py
@@ -269,7 +269,7 @@ def plot_data_1d_k(
     basis_k = stacked_basis_as_fundamental_momentum_basis(basis)
     converted_data = convert_vector(data, basis, basis_k)
 
-    idx = get_max_idx(basis_k, data, axes) if idx is None else idx
+    idx = get_max_idx(basis_k, converted_data, axes) if idx is None else idx
 
     coordinates = get_k_coordinates_in_axes(basis_k, axes, idx)
     data_in_axis = get_data_in_axes(converted_data.reshape(basis_k.shape), axes, idx)
-- 
2.43.0


From 5c10e25db453321d4a8bf2e7bf2cd21d89176dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:27 +0000
Subject: [PATCH 69/92] fix: uncertainties of a closed curve have its length

---
 surface_potential_analysis/util/plot.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/surface_potential_analysis/util/plot.py b/surface_potential_analysis/util/plot.py
index 60c3250..29f31e5 100644
--- a/surface_potential_analysis/util/plot.py
+++ b/surface_potential_analysis/util/plot.py
@@ -179,6 +179,8 @@ def plot_data_1d(
         d_coord = coordinates[1] - coordinates[0]
         coordinates = np.append(coordinates, coordinates[-1] + d_coord)
         measured_data = np.append(measured_data, measured_data[0])
+        if y_errors is not None:
+            y_errors = np.append(y_errors, y_errors[0])
 
     container = ax.errorbar(coordinates, measured_data, yerr=y_errors)  # type: ignore lib
     line = container.lines[0]
-- 
2.43.0


From 134e2eff407aa05abbf20614ce3cee82f9d45839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:28 +0000
Subject: [PATCH 70/92] fix: animation through a surface has the frames of its
 axis and the limits of its measure

---
 surface_potential_analysis/util/plot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/util/plot.py b/surface_potential_analysis/util/plot.py
index 29f31e5..dfb63be 100644
--- a/surface_potential_analysis/util/plot.py
+++ b/surface_potential_analysis/util/plot.py
@@ -641,9 +641,10 @@ def animate_data_through_surface_x(
             measured_data[:, :, i],
             shading="nearest",
         ),
-        data.shape[2],
+        data_in_axis.shape[2],
         ax=ax,
         scale=scale,
+        measure=measure,
         clim=clim,
     )
     ax.set_aspect("equal", adjustable="box")
-- 
2.43.0


From 4b80c466f3e9d6f65e5c2326266419bdba95bb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:28 +0000
Subject: [PATCH 71/92] fix: animation of a potential uses the converted
 potential

---
 surface_potential_analysis/potential/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/potential/plot.py b/surface_potential_analysis/potential/plot.py
index 52d5161..645e03e 100644
--- a/surface_potential_analysis/potential/plot.py
+++ b/surface_potential_analysis/potential/plot.py
@@ -316,9 +316,9 @@ def animate_potential_3d_x(
     tuple[Figure, Axes, ArtistAnimation]
     """
     converted = convert_potential_to_position_basis(potential)
-    points = potential["data"].reshape(converted["basis"].shape)
+    points = converted["data"].reshape(converted["basis"].shape)
     fig, ax, ani = animate_data_through_surface_x(  # type: ignore[misc]
-        potential["basis"],
+        converted["basis"],
         points,
         axes,
         idx,
-- 
2.43.0


From 9e13b75beec25d9e2f899932f0157b257e06d807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:28 +0000
Subject: [PATCH 72/92] fix: overlaps along a path are taken on the grid of
 positions

---
 surface_potential_analysis/overlap/plot.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/surface_potential_analysis/overlap/plot.py b/surface_potential_analysis/overlap/plot.py
index eabbf60..f42f98d 100644
--- a/surface_potential_analysis/overlap/plot.py
+++ b/surface_potential_analysis/overlap/plot.py
@@ -172,7 +172,7 @@ def plot_overlap_along_path_k(
     fig, ax = get_figure(ax)
     converted = convert_overlap_to_momentum_basis(overlap)
 
-    points = converted["data"].reshape(converted["basis"].shape)[*path]
+    points = converted["data"].reshape(converted["basis"][0].shape)[*path]
     data = get_measured_data(points, measure)
     distances = calculate_cumulative_k_distances_along_path(
         converted["basis"][0], path, wrap_distances=wrap_distances
@@ -209,7 +209,7 @@ def plot_overlap_along_k_diagonal(
     tuple[Figure, Axes, Line2D]
     """
     path = np.array(
-        [[i, i, k2_ind] for i in range(overlap["basis"].fundamental_shape[0])]
+        [[i, i, k2_ind] for i in range(overlap["basis"][0].fundamental_shape[0])]
     ).T
 
     return plot_overlap_along_path_k(overlap, path, measure=measure, scale=scale, ax=ax)
@@ -244,7 +244,7 @@ def plot_overlap_along_k0(
     tuple[Figure, Axes, Line2D]
     """
     path = np.array(
-        [[i, k1_ind, k2_ind] for i in range(overlap["basis"].fundamental_shape[0])]
+        [[i, k1_ind, k2_ind] for i in range(overlap["basis"][0].fundamental_shape[0])]
     ).T
 
     return plot_overlap_along_path_k(overlap, path, measure=measure, scale=scale, ax=ax)
-- 
2.43.0


From 4f104f7999b36c584935bd1162988dd17c52cf49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:28 +0000
Subject: [PATCH 73/92] fix: plot of an operator along the diagonal uses the
 axes given

---
 surface_potential_analysis/operator/plot.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/operator/plot.py b/surface_potential_analysis/operator/plot.py
index 2d087fe..7b6d25a 100644
--- a/surface_potential_analysis/operator/plot.py
+++ b/surface_potential_analysis/operator/plot.py
@@ -249,7 +249,11 @@ def plot_diagonal_operator_along_diagonal(
     tuple[Figure, Axes, Line2D]
     """
     fig, ax, line = plot_data_1d_n(
-        TupleBasis(operator["basis"][0]), operator["data"], measure=measure, scale=scale
+        TupleBasis(operator["basis"][0]),
+        operator["data"],
+        ax=ax,
+        measure=measure,
+        scale=scale,
     )
 
     line.set_label(f"{measure} operator")
-- 
2.43.0


From 47c7fccadae4cc12b482166cecad6f0323feab21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:51 +0000
Subject: [PATCH 74/92] fix: leave the caller's eigenvalues alone when plotting
 occupations

---
 .../state_vector/eigenvalue_list_plot.py                       | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/surface_potential_analysis/state_vector/eigenvalue_list_plot.py b/surface_potential_analysis/state_vector/eigenvalue_list_plot.py
index 86204d0..ef551dc 100644
--- a/surface_potential_analysis/state_vector/eigenvalue_list_plot.py
+++ b/surface_potential_analysis/state_vector/eigenvalue_list_plot.py
@@ -99,8 +99,7 @@ def plot_eigenstate_occupations(
     """
     fig, ax = get_figure(ax)
 
-    energies = eigenstates["eigenvalue"]
-    energies -= np.min(energies)
+    energies = eigenstates["eigenvalue"] - np.min(eigenstates["eigenvalue"])
     occupation = np.exp(-np.abs(energies) / (temperature * Boltzmann))
     occupation /= np.sum(occupation)
 
-- 
2.43.0


From 8cf1b6eda30cbb5165785e3e552c23f024e22854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:51 +0000
Subject: [PATCH 75/92] fix: plot_average_isf_against_time passed on half of
 its basis

---
 surface_potential_analysis/dynamics/isf_plot.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/isf_plot.py b/surface_potential_analysis/dynamics/isf_plot.py
index 61ac6a4..e705907 100644
--- a/surface_potential_analysis/dynamics/isf_plot.py
+++ b/surface_potential_analysis/dynamics/isf_plot.py
@@ -2,6 +2,7 @@ from __future__ import annotations
 
 from typing import TYPE_CHECKING, Any, TypeVar
 
+from surface_potential_analysis.basis.stacked_basis import TupleBasis
 from surface_potential_analysis.dynamics.isf import (
     ISF4VariableFit,
     ISFFey4VariableFit,
@@ -102,7 +103,10 @@ def plot_average_isf_against_time(
     """
     averaged = average_eigenvalues(eigenvalues, (0,))
     return plot_isf_against_time(
-        {"basis": averaged["basis"][0][0], "data": averaged["data"]},
+        {
+            "basis": TupleBasis(averaged["basis"][0][0], averaged["basis"][0][0]),
+            "data": averaged["data"],
+        },
         ax=ax,
         measure=measure,
         scale=scale,
-- 
2.43.0


From 45e8d08973e27cb880b63239fcb38cbe84a6067b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:00 +0000
Subject: [PATCH 76/92] fix: plot_diagonal_noise_operators_eigenvalues dropped
 the largest instead of keeping them

---
 surface_potential_analysis/kernel/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/kernel/plot.py b/surface_potential_analysis/kernel/plot.py
index 5118cd8..4e19473 100644
--- a/surface_potential_analysis/kernel/plot.py
+++ b/surface_potential_analysis/kernel/plot.py
@@ -463,7 +463,7 @@ def plot_diagonal_noise_operators_eigenvalues(
     fig, ax = get_figure(ax)
 
     eigenvalues = get_measured_data(operators["eigenvalue"], measure)
-    args = np.argsort(eigenvalues)[:truncation:-1]
+    args = np.argsort(eigenvalues)[::-1][:truncation]
 
     (line,) = ax.plot(eigenvalues[args])  # type: ignore library type
     ax.set_ylabel("Eigenvalue")  # type: ignore library type
-- 
2.43.0


From cb83a9cc869e355f4c62a35a873f11f58d7cc573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:00 +0000
Subject: [PATCH 77/92] fix: sample noise from the operators kept, and label
 the axis which is drawn on

---
 surface_potential_analysis/kernel/plot.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/surface_potential_analysis/kernel/plot.py b/surface_potential_analysis/kernel/plot.py
index 4e19473..85ed50b 100644
--- a/surface_potential_analysis/kernel/plot.py
+++ b/surface_potential_analysis/kernel/plot.py
@@ -306,20 +306,18 @@ def plot_diagonal_noise_operators_single_sample(  # noqa: PLR0913
     measured_potential = np.zeros(truncated["basis"][1][0].n, dtype=np.complex128)
     for i, factor in enumerate(factors):
         operator = select_diagonal_operator(
-            operators,
+            truncated,
             idx=i,
         )
         measured_potential += (
             factor
-            * np.lib.scimath.sqrt(operators["eigenvalue"][i] * hbar)
+            * np.lib.scimath.sqrt(truncated["eigenvalue"][i] * hbar)
             * operator["data"]
         )
 
     measured_potential -= measured_potential[0]
 
-    ax.set_ylabel("Energy /J")  # type: ignore library type
-
-    return plot_data_1d_x(
+    fig, ax, line = plot_data_1d_x(
         operators["basis"][1][0],
         measured_potential,
         axes,
@@ -328,6 +326,8 @@ def plot_diagonal_noise_operators_single_sample(  # noqa: PLR0913
         scale=scale,
         measure=measure,
     )
+    ax.set_ylabel("Energy /J")  # type: ignore library type
+    return fig, ax, line
 
 
 def plot_noise_operators_single_sample_x(  # noqa: PLR0913
-- 
2.43.0


From 636939851668b8ae7ded601b434446f48307cd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:00 +0000
Subject: [PATCH 78/92] fix: rounding of the bins lost the outermost sizes of a
 kernel

---
 surface_potential_analysis/kernel/plot.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/surface_potential_analysis/kernel/plot.py b/surface_potential_analysis/kernel/plot.py
index 85ed50b..3814acf 100644
--- a/surface_potential_analysis/kernel/plot.py
+++ b/surface_potential_analysis/kernel/plot.py
@@ -163,6 +163,8 @@ def plot_kernel_sparsity(
     bins = np.logspace(
         np.log10(np.min(data)), np.log10(np.max(data)), 10000, dtype=np.float64
     )
+    bins = np.clip(bins, np.min(data), np.max(data))
+    bins[0], bins[-1] = np.min(data), np.max(data)
     values, bins = np.histogram(data, bins=bins)
 
     cumulative = np.cumsum(values)
-- 
2.43.0


From 736a6e747b433e399b98d9f38e58c0f607cc30ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:01 +0000
Subject: [PATCH 79/92] fix: rounding of the bins lost the largest size of an
 operator

---
 surface_potential_analysis/operator/plot.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/surface_potential_analysis/operator/plot.py b/surface_potential_analysis/operator/plot.py
index 7b6d25a..4cfd821 100644
--- a/surface_potential_analysis/operator/plot.py
+++ b/surface_potential_analysis/operator/plot.py
@@ -95,10 +95,9 @@ def plot_operator_sparsity(
     fig, ax = get_figure(ax)
     measured = get_measured_data(operator["data"], measure)
 
-    values, bins = np.histogram(
-        measured,
-        bins=np.logspace(-22, np.log10(np.max(measured)), 10000),  # type:ignore lib
-    )
+    bins = np.logspace(-22, np.log10(np.max(measured)), 10000)  # type:ignore lib
+    bins[-1] = np.max(measured)
+    values, bins = np.histogram(measured, bins=bins)
 
     cumulative = np.cumsum(values)
     ax.plot(bins[:-1], cumulative)  # type:ignore lib
@@ -148,10 +147,9 @@ def plot_operator_diagonal_sparsity(
     diagonals = _get_operator_diagonals(operator)
     size = np.linalg.norm(diagonals, axis=1)
 
-    values, bins = np.histogram(
-        size,
-        bins=np.logspace(-22, np.log10(np.max(size)), 10000),  # type:ignore lib
-    )
+    bins = np.logspace(-22, np.log10(np.max(size)), 10000)  # type:ignore lib
+    bins[-1] = np.max(size)
+    values, bins = np.histogram(size, bins=bins)
 
     cumulative = np.cumsum(values)
     ax.plot(bins[:-1], cumulative)  # type:ignore lib
-- 
2.43.0


From 47add0ae9152f55d4969419ac422c279836fdaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:01 +0000
Subject: [PATCH 80/92] fix: title of plot_average_probability_per_band counted
 the keys of a dictionary

---
 surface_potential_analysis/dynamics/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/plot.py b/surface_potential_analysis/dynamics/plot.py
index f23a24b..5d8f443 100644
--- a/surface_potential_analysis/dynamics/plot.py
+++ b/surface_potential_analysis/dynamics/plot.py
@@ -104,7 +104,7 @@ def plot_average_probability_per_band(
 
     ax.set_title(  # type: ignore lib
         "Plot of occupation of each band against time,\n"
-        f"averaged over {len(probability)} repeats"
+        f"averaged over {probability['basis'][0][0].n} repeats"
     )
     return fig, ax, lines
 
-- 
2.43.0


From abd9bc30d96b1366d8c30e41b8e8118621d54e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:01 +0000
Subject: [PATCH 81/92] fix: plot_rate_decomposition_against_temperature needed
 fifty rates

---
 .../dynamics/incoherent_propagation/plot.py                     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/incoherent_propagation/plot.py b/surface_potential_analysis/dynamics/incoherent_propagation/plot.py
index 5310aec..3105a5b 100644
--- a/surface_potential_analysis/dynamics/incoherent_propagation/plot.py
+++ b/surface_potential_analysis/dynamics/incoherent_propagation/plot.py
@@ -46,6 +46,6 @@ def plot_rate_decomposition_against_temperature(
     sorted_rates = np.take_along_axis(rate_constants, relevant_rates, axis=-1)[:, ::-1]
 
     coefficients = np.abs([rate.coefficients for rate in rates])
-    for i in range(50):
+    for i in range(min(50, sorted_rates.shape[1])):
         ax.plot(temperatures, sorted_rates[:, i])  # type: ignore lib
     return fig, ax
-- 
2.43.0


From b48eddddaa4ae4ffba741da0d678b0f45ae5f85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:01 +0000
Subject: [PATCH 82/92] fix: size of an empty TupleBasis is an integer

---
 surface_potential_analysis/basis/stacked_basis.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/surface_potential_analysis/basis/stacked_basis.py b/surface_potential_analysis/basis/stacked_basis.py
index f69a114..077d1b7 100644
--- a/surface_potential_analysis/basis/stacked_basis.py
+++ b/surface_potential_analysis/basis/stacked_basis.py
@@ -52,11 +52,11 @@ class StackedBasisLike(BasisLike[_FN0_co, _N0_co], Protocol[_N0_co, _FN0_co, _ND
 
     @property
     def n(self) -> _N0_co:
-        return cast(_N0_co, np.prod(self.shape).item())
+        return cast(_N0_co, np.prod(self.shape, dtype=int).item())
 
     @property
     def fundamental_n(self) -> _FN0_co:
-        return cast(_FN0_co, np.prod(self.fundamental_shape).item())
+        return cast(_FN0_co, np.prod(self.fundamental_shape, dtype=int).item())
 
     @property
     def shape(self) -> tuple[int, ...]:
@@ -81,11 +81,11 @@ class StackedBasisWithVolumeLike(
 
     @property
     def n(self) -> _N0_co:
-        return cast(_N0_co, np.prod(self.shape).item())
+        return cast(_N0_co, np.prod(self.shape, dtype=int).item())
 
     @property
     def fundamental_n(self) -> _FN0_co:
-        return cast(_FN0_co, np.prod(self.fundamental_shape).item())
+        return cast(_FN0_co, np.prod(self.fundamental_shape, dtype=int).item())
 
     @property
     def shape(self) -> tuple[int, ...]:
-- 
2.43.0


From 829de667513dfcd10d8276f4ebc1d3a2f88315cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:58 +0000
Subject: [PATCH 83/92] fix: the squared scale was unknown to matplotlib by
 name

---
 surface_potential_analysis/util/squared_scale.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/util/squared_scale.py b/surface_potential_analysis/util/squared_scale.py
index c222c61..f2ed07b 100644
--- a/surface_potential_analysis/util/squared_scale.py
+++ b/surface_potential_analysis/util/squared_scale.py
@@ -3,7 +3,7 @@ from __future__ import annotations
 from typing import TYPE_CHECKING, Self, Sequence
 
 import numpy as np
-from matplotlib.scale import ScaleBase
+from matplotlib.scale import ScaleBase, register_scale
 from matplotlib.ticker import Locator
 from matplotlib.transforms import Transform
 
@@ -81,3 +81,6 @@ class SquaredScale(ScaleBase):  # noqa: D101
 
         def inverted(self: Self) -> Transform:  # noqa: PLR6301
             return SquaredScale._SquaredTransform()
+
+
+register_scale(SquaredScale)
-- 
2.43.0


From 135033d2d44961daf2458937a046182f994ca57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:58 +0000
Subject: [PATCH 84/92] fix: evenly spaced bloch fractions are real, with an
 axis for their direction

---
 surface_potential_analysis/basis/block_fraction_basis.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/basis/block_fraction_basis.py b/surface_potential_analysis/basis/block_fraction_basis.py
index 7bf6e41..1eb777d 100644
--- a/surface_potential_analysis/basis/block_fraction_basis.py
+++ b/surface_potential_analysis/basis/block_fraction_basis.py
@@ -59,8 +59,9 @@ class EvenlySpacedBlockFractionBasis(
 
     @property
     def bloch_fractions(self) -> np.ndarray[tuple[Any, _N0_co], np.dtype[np.float64]]:
-        return self.__from_fundamental__(  # type: ignore can't infer shape
-            np.linspace(-0.5, 0.5, self.fundamental_n, endpoint=False)
+        fractions = np.linspace(-0.5, 0.5, self.fundamental_n, endpoint=False)
+        return np.real(  # type: ignore can't infer shape
+            self.__from_fundamental__(fractions[np.newaxis, :])
         )
 
 
-- 
2.43.0


From b230c8111fecc4eb9d10322a9ea741c5e2dd31ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:20 +0000
Subject: [PATCH 85/92] fix: effective mass of localized bands grew with the
 number of samples

---
 surface_potential_analysis/wavepacket/plot.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/surface_potential_analysis/wavepacket/plot.py b/surface_potential_analysis/wavepacket/plot.py
index 103be79..7f8283c 100644
--- a/surface_potential_analysis/wavepacket/plot.py
+++ b/surface_potential_analysis/wavepacket/plot.py
@@ -636,10 +636,11 @@ def get_wavepacket_localized_effective_mass(
     free_energy = _get_free_energy(wavefunctions["basis"][1], nx_points, axis)
     # By integrating explicitly we find
     # |E(\Delta x)| = (\Delta x)^{-3}(8\pi N + 4 \pi)
-    # we add an additional np.sqrt(wavepacket["basis"][0][1].n) * delta_x / (2 * np.pi)
-    # to account for the difference in fourier transform definitions
+    # we add an additional delta_x / (2 * np.pi) to account for the difference
+    # in fourier transform definitions. Unlike the transformed energy, the
+    # hamiltonian of localized states does not grow with the number of samples
     delta_x = np.linalg.norm(wavefunctions["basis"][1].delta_x_stacked[axis])
-    norm = np.sqrt(wavefunctions["basis"][0][1].n) * delta_x / (2 * np.pi)
+    norm = delta_x / (2 * np.pi)
     norm *= hbar**2 / 2
     effective_mass = norm * free_energy / actual_energy
     return {"basis": wavefunctions["basis"][0][0], "data": effective_mass}
-- 
2.43.0


From 06243ee6a82e082f4b3023cb182d57ada689fd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:20 +0000
Subject: [PATCH 86/92] fix: plot_wavepacket_sample_frequencies took its
 default plane from the wrong basis

---
 surface_potential_analysis/wavepacket/plot.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/surface_potential_analysis/wavepacket/plot.py b/surface_potential_analysis/wavepacket/plot.py
index 7f8283c..5b218c7 100644
--- a/surface_potential_analysis/wavepacket/plot.py
+++ b/surface_potential_analysis/wavepacket/plot.py
@@ -127,12 +127,12 @@ def plot_wavepacket_sample_frequencies(
     tuple[Figure, Axes, Line2D]
     """
     fig, ax = get_figure(ax)
-    util = BasisUtil(wavepacket["basis"])
-    idx = tuple(0 for _ in range(util.ndim - len(axes))) if idx is None else idx
+    list_basis = wavepacket["basis"][0]
+    idx = tuple(0 for _ in range(list_basis.ndim - len(axes))) if idx is None else idx
 
     frequencies = get_wavepacket_fundamental_sample_frequencies(
         wavepacket["basis"]
-    ).reshape(-1, *wavepacket["basis"][0].shape)
+    ).reshape(-1, *list_basis.fundamental_shape)
     frequencies = frequencies[list(axes), *slice_ignoring_axes(idx, axes)]
     (line,) = ax.plot(*frequencies.reshape(2, -1))  # type: ignore lib
     line.set_marker("x")
-- 
2.43.0


From 80bd3f00d604b5c1fafb5874b918f52e1f1c003b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:20 +0000
Subject: [PATCH 87/92] fix: charts of band energies in 2d took the samples to
 be in the fundamental basis

---
 surface_potential_analysis/wavepacket/plot.py | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/wavepacket/plot.py b/surface_potential_analysis/wavepacket/plot.py
index 5b218c7..2f0812e 100644
--- a/surface_potential_analysis/wavepacket/plot.py
+++ b/surface_potential_analysis/wavepacket/plot.py
@@ -6,6 +6,7 @@ import numpy as np
 from matplotlib.lines import Line2D
 from scipy.constants import Boltzmann, hbar  # type: ignore lib
 
+from surface_potential_analysis.basis.basis_like import convert_vector
 from surface_potential_analysis.basis.util import BasisUtil
 from surface_potential_analysis.stacked_basis.conversion import (
     stacked_basis_as_fundamental_basis,
@@ -145,6 +146,19 @@ def plot_wavepacket_sample_frequencies(
     return fig, ax, line
 
 
+def _get_fundamental_eigenvalues(
+    wavepacket: BlochWavefunctionListWithEigenvalues[
+        TupleBasisLike[*tuple[Any, ...]], Any
+    ],
+) -> np.ndarray[tuple[int], np.dtype[np.complex128]]:
+    list_basis = wavepacket["basis"][0]
+    return convert_vector(
+        wavepacket["eigenvalue"],
+        list_basis,
+        stacked_basis_as_fundamental_transformed_basis(list_basis),
+    )
+
+
 def plot_wavepacket_eigenvalues_2d_k(
     wavepacket: BlochWavefunctionListWithEigenvalues[
         TupleBasisLike[*tuple[Any, ...]], _SBV0
@@ -172,9 +186,10 @@ def plot_wavepacket_eigenvalues_2d_k(
     tuple[Figure, Axes, QuadMesh]
     """
     basis = get_fundamental_sample_basis(wavepacket["basis"])
+    data = _get_fundamental_eigenvalues(wavepacket)
 
     fig, ax, mesh = plot_data_2d_k(
-        basis, wavepacket["eigenvalue"], axes, idx, ax=ax, scale=scale, measure=measure
+        basis, data, axes, idx, ax=ax, scale=scale, measure=measure
     )
     ax.set_title("Plot of band energies against momentum")  # type: ignore lib
     return fig, ax, mesh
@@ -735,9 +750,10 @@ def plot_wavepacket_eigenvalues_2d_x(
     tuple[Figure, Axes, QuadMesh]
     """
     basis = get_fundamental_sample_basis(wavepacket["basis"])
+    data = _get_fundamental_eigenvalues(wavepacket)
 
     fig, ax, mesh = plot_data_2d_x(
-        basis, wavepacket["eigenvalue"], axes, idx, ax=ax, scale=scale, measure=measure
+        basis, data, axes, idx, ax=ax, scale=scale, measure=measure
     )
     ax.set_title("Plot of the fourier transform of the band energies against position")  # type: ignore lib
     return fig, ax, mesh
-- 
2.43.0


From d7c825f6f338424355e851308ffb5902072b24a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:39 +0000
Subject: [PATCH 88/92] fix: plot the positions of grid points, not their
 indices

---
 surface_potential_analysis/stacked_basis/plot.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/stacked_basis/plot.py b/surface_potential_analysis/stacked_basis/plot.py
index 0443cc5..98d38e2 100644
--- a/surface_potential_analysis/stacked_basis/plot.py
+++ b/surface_potential_analysis/stacked_basis/plot.py
@@ -254,9 +254,10 @@ def plot_fundamental_x_at_index_projected_2d(
     tuple[Figure, Axes, Line2D]
     """
     util = BasisUtil(basis)
-    idx = idx if isinstance(idx, tuple) else util.get_stacked_index(idx)
+    if not isinstance(idx, tuple):
+        idx = np.unravel_index(idx, util.fundamental_shape)
     points = (
-        np.array(util.fundamental_stacked_nx_points, dtype=np.float64)
+        np.array(util.fundamental_x_points_stacked)
         .reshape(util.ndim, *util.fundamental_shape)[:, *idx]
         .reshape(util.ndim, -1)
     )
-- 
2.43.0


From 940fa820b747884e312f7ea43a6d8df1343bd6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:45 +0000
Subject: [PATCH 89/92] fix: plot the wavevectors of the plane through the
 given index

---
 surface_potential_analysis/stacked_basis/plot.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/surface_potential_analysis/stacked_basis/plot.py b/surface_potential_analysis/stacked_basis/plot.py
index 98d38e2..472e249 100644
--- a/surface_potential_analysis/stacked_basis/plot.py
+++ b/surface_potential_analysis/stacked_basis/plot.py
@@ -150,9 +150,11 @@ def plot_fundamental_k_in_plane_projected_2d(
     tuple[Figure, Axes, Line2D]
     """
     util = BasisUtil(basis)
-    points = util.fundamental_stacked_k_points.reshape(3, *util.fundamental_shape)[
-        slice_ignoring_axes(idx, axes)
-    ].reshape(3, -1)
+    points = (
+        util.fundamental_stacked_k_points.reshape(basis.ndim, *util.fundamental_shape)[
+            slice_ignoring_axes(idx, (0, *[1 + ax for ax in axes]))
+        ]
+    ).reshape(basis.ndim, -1)
     return plot_k_points_projected_2d(basis, axes, points, ax=ax)
 
 
-- 
2.43.0


From f748d03807a273171c1cd07cf7e7faf060c27f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:45 +0000
Subject: [PATCH 90/92] fix: fold points all the way into the first brillouin
 zone

---
 surface_potential_analysis/stacked_basis/plot.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/stacked_basis/plot.py b/surface_potential_analysis/stacked_basis/plot.py
index 472e249..b888ecf 100644
--- a/surface_potential_analysis/stacked_basis/plot.py
+++ b/surface_potential_analysis/stacked_basis/plot.py
@@ -94,8 +94,12 @@ def plot_brillouin_zone_points_projected_2d(
     util = BasisUtil(
         TupleBasis(basis[0], basis[1], basis_as_single_point_basis(basis[2]))
     )
-    coordinates = decrement_brillouin_zone(basis, util.stacked_nk_points)
-    coordinates = decrement_brillouin_zone(basis, coordinates)
+    previous = util.stacked_nk_points
+    coordinates = decrement_brillouin_zone(basis, previous)
+    # Each step brings points closer to the origin, repeat until all are in the zone
+    while not np.array_equal(coordinates, previous):
+        previous = coordinates
+        coordinates = decrement_brillouin_zone(basis, previous)
     points = util.get_k_points_at_index(coordinates)
 
     return plot_k_points_projected_2d(basis, axes, points, ax=ax)
-- 
2.43.0


From 97e68eb8a56c8b416ef865fdd78fbe14fec42333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:38 +0000
Subject: [PATCH 91/92] fix: Fermi occupation integral covers the whole of
 omega and only the band

---
 .../dynamics/hermitian_gamma_integral.py      | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/dynamics/hermitian_gamma_integral.py b/surface_potential_analysis/dynamics/hermitian_gamma_integral.py
index 63bb687..a21b8b8 100644
--- a/surface_potential_analysis/dynamics/hermitian_gamma_integral.py
+++ b/surface_potential_analysis/dynamics/hermitian_gamma_integral.py
@@ -105,7 +105,22 @@ def calculate_hermitian_gamma_occupation_integral(
     -------
     float
     """
-    d_k = 2 * boltzmann_energy * electron_mass / (hbar**2 * k_f)
+    d_k_sq = 40 * 2 * boltzmann_energy * electron_mass / hbar**2
+    k_sq_omega = 2 * electron_mass * omega / hbar**2
+    # The occupation N1 drops at k_f, and (1-N3) rises omega below that
+    k_sq_rise = k_f**2 - max(k_sq_omega, 0.0)
+    k_sq_edges = np.array(
+        [
+            k_sq_rise - d_k_sq,
+            k_sq_rise + d_k_sq,
+            k_f**2 - d_k_sq,
+            k_f**2 + d_k_sq,
+        ]
+    )
+    # Both k1 and k3 must be in the band
+    k_edges = np.sqrt(np.maximum(k_sq_edges, max(-k_sq_omega, 0.0)))
+    if k_edges[0] == k_edges[-1]:
+        return 0.0
 
     def f(
         k: np.ndarray[_S0Inv, np.dtype[np.float64]],
@@ -114,7 +129,7 @@ def calculate_hermitian_gamma_occupation_integral(
             k, omega=omega, k_f=k_f, boltzmann_energy=boltzmann_energy
         )
 
-    return scipy.integrate.quad(f, k_f - 20 * d_k, k_f + 20 * d_k)[0]  # type: ignore unknown return
+    return scipy.integrate.quad(f, k_edges[0], k_edges[-1], points=k_edges[1:-1])[0]  # type: ignore unknown return
 
 
 def _calculate_real_gamma_prefactor(k_f: float) -> float:
-- 
2.43.0


From 4620671556395f42cca327cddc74ad310d34260d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:38 +0000
Subject: [PATCH 92/92] fix: Coulomb potential without cancellation at small
 momentum transfer

---
 .../dynamics/hermitian_gamma_integral.py          | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/surface_potential_analysis/dynamics/hermitian_gamma_integral.py b/surface_potential_analysis/dynamics/hermitian_gamma_integral.py
index a21b8b8..384267b 100644
--- a/surface_potential_analysis/dynamics/hermitian_gamma_integral.py
+++ b/surface_potential_analysis/dynamics/hermitian_gamma_integral.py
@@ -144,16 +144,13 @@ def _get_coulomb_potential(
     )
     alpha = 2 / bohr_radius
     q_div_alpha = q / alpha
-    small_q_limit = (
-        -2
-        * (elementary_charge**2 / (epsilon_0 * alpha**2))
-        * (1 - 3 / 2 * (q_div_alpha) ** 2)
+    # (e^2 / (epsilon_0 q^2)) * ((1 / (1 + (q / alpha)^2))^2 - 1), without the
+    # cancellation at small q
+    return (  # type: ignore[no-any-return]
+        -(elementary_charge**2 / (epsilon_0 * alpha**2))
+        * (2 + q_div_alpha**2)
+        / (1 + q_div_alpha**2) ** 2
     )
-    full_expression = (elementary_charge**2 / (epsilon_0 * q**2)) * (
-        (1 / (1 + q_div_alpha**2)) ** 2 - 1
-    )
-
-    return np.where(np.isclose(q_div_alpha, 0), small_q_limit, full_expression)  # type: ignore[no-any-return]
 
 
 def _get_hopping_potential_integrand(
-- 
2.43.0

