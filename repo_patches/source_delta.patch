From f9b6e4d2a0690028e6fc522fecd3bcc5ab153a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:19 +0000
Subject: [PATCH 01/71] fix: do not modify the caller's data in
 dynamics/incoherent_propagation/tunnelling_matrix.py

---
 .../dynamics/incoherent_propagation/tunnelling_matrix.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py b/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
index 5ae5e51..d0b9983 100644
--- a/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
+++ b/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
@@ -329,7 +329,7 @@ def get_tunnelling_m_matrix(
     TunnellingMMatrix
     """
     matrix = matrix if n_bands is None else get_a_matrix_reduced_bands(matrix, n_bands)
-    data = matrix["data"].reshape(matrix["basis"].shape)
+    data = matrix["data"].reshape(matrix["basis"].shape).copy()
     np.fill_diagonal(data, 0)
     array = data.T - np.diag(np.sum(data, axis=1))
     return {"basis": matrix["basis"], "data": array}
-- 
2.43.0


From bc00653a6db4050e54d63c7fc82f598cc2cba6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:19 +0000
Subject: [PATCH 02/71] fix: do not modify the caller's data in
 dynamics/stochastic_schrodinger/solve.py

---
 .../dynamics/stochastic_schrodinger/solve.py                    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
index 764070e..9e3d38b 100644
--- a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
+++ b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
@@ -118,7 +118,7 @@ def get_collapse_operators_from_a_matrix(
     -------
     list[SingleBasisOperator[ tuple[ FundamentalBasis[_L0Inv], FundamentalBasis[_L1Inv], TunnellingSimulationBandsBasis[_L2Inv]]]]
     """
-    data = matrix["data"].reshape(matrix["basis"].shape)
+    data = matrix["data"].reshape(matrix["basis"].shape).copy()
     np.fill_diagonal(data, 0)
     return [
         {
-- 
2.43.0


From 5951a2107568908976d75bfea7775419edd2089f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:19 +0000
Subject: [PATCH 03/71] fix: do not modify the caller's data in
 state_vector/plot.py

---
 surface_potential_analysis/state_vector/plot.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/surface_potential_analysis/state_vector/plot.py b/surface_potential_analysis/state_vector/plot.py
index e0aba67..62c62fc 100644
--- a/surface_potential_analysis/state_vector/plot.py
+++ b/surface_potential_analysis/state_vector/plot.py
@@ -1152,10 +1152,11 @@ def _get_x_spread(
     direction = tuple(1 if i == axis else 0 for i in range(states["basis"][1].ndim))
 
     data = states["data"].reshape(states["basis"].shape)
-    data /= np.linalg.norm(data, axis=1)[:, np.newaxis]
-
-    states["data"] = data.ravel()
-    periodic_x = _get_periodic_x(states, direction)
+    normalized: StateVectorList[Any, Any] = {
+        "basis": states["basis"],
+        "data": (data / np.linalg.norm(data, axis=1)[:, np.newaxis]).ravel(),
+    }
+    periodic_x = _get_periodic_x(normalized, direction)
     norm = np.abs(periodic_x["data"])
     q = 2 * np.pi / np.linalg.norm(states["basis"][1].delta_x_stacked[axis])
     sigma_0 = np.sqrt(-(4 / q**2) * np.log(norm))
-- 
2.43.0


From e83c3a475c3e83099e8ee1ece18aaeac4439cf85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:25 +0000
Subject: [PATCH 04/71] fix: build the sho-subtracted basis with the current
 sho basis constructor

---
 .../hamiltonian_builder/sho_subtracted_basis.py        | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/surface_potential_analysis/hamiltonian_builder/sho_subtracted_basis.py b/surface_potential_analysis/hamiltonian_builder/sho_subtracted_basis.py
index 38bb7e9..76bb219 100644
--- a/surface_potential_analysis/hamiltonian_builder/sho_subtracted_basis.py
+++ b/surface_potential_analysis/hamiltonian_builder/sho_subtracted_basis.py
@@ -27,7 +27,7 @@ from surface_potential_analysis.stacked_basis.sho_basis import (
 )
 
 if TYPE_CHECKING:
-    from surface_potential_analysis.basis.explicit_basis import ExplicitBasis3d
+    from surface_potential_analysis.basis.explicit_basis import ExplicitBasisWithLength
     from surface_potential_analysis.operator import SingleBasisOperator
     from surface_potential_analysis.potential.potential import Potential
 
@@ -122,7 +122,7 @@ class _SurfaceHamiltonianUtil(
     ) -> TupleBasis[
         TransformedPositionBasis3d[_NF0Inv, _N0Inv],
         TransformedPositionBasis3d[_NF1Inv, _N1Inv],
-        ExplicitBasis3d[_NF2Inv, _N2Inv],
+        ExplicitBasisWithLength[_NF2Inv, _N2Inv],
     ]:
         return TupleBasis(
             TransformedPositionBasis(
@@ -141,7 +141,7 @@ class _SurfaceHamiltonianUtil(
                     self._potential["basis"][2].n,
                 ),
                 self._config,
-                self._resolution[2],
+                n=self._resolution[2],
             ),
         )
 
@@ -151,7 +151,7 @@ class _SurfaceHamiltonianUtil(
         TupleBasisLike[
             TransformedPositionBasis3d[_NF0Inv, _N0Inv],
             TransformedPositionBasis3d[_NF1Inv, _N1Inv],
-            ExplicitBasis3d[_NF2Inv, _N2Inv],
+            ExplicitBasisWithLength[_NF2Inv, _N2Inv],
         ]
     ]:
         diagonal_energies = np.diag(self._calculate_diagonal_energy(bloch_phase))
@@ -280,7 +280,7 @@ def total_surface_hamiltonian(
     TupleBasisLike[
         TransformedPositionBasis3d[_NF0Inv, _N0Inv],
         TransformedPositionBasis3d[_NF1Inv, _N1Inv],
-        ExplicitBasis3d[_NF2Inv, _N2Inv],
+        ExplicitBasisWithLength[_NF2Inv, _N2Inv],
     ]
 ]:
     """
-- 
2.43.0


From 86e73587b974968f956d3b21b103f07d63c6ac25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:25 +0000
Subject: [PATCH 05/71] fix: label the axes that were drawn on when plotting a
 single noise sample

---
 surface_potential_analysis/kernel/plot.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/surface_potential_analysis/kernel/plot.py b/surface_potential_analysis/kernel/plot.py
index 5118cd8..a91f9cf 100644
--- a/surface_potential_analysis/kernel/plot.py
+++ b/surface_potential_analysis/kernel/plot.py
@@ -317,9 +317,7 @@ def plot_diagonal_noise_operators_single_sample(  # noqa: PLR0913
 
     measured_potential -= measured_potential[0]
 
-    ax.set_ylabel("Energy /J")  # type: ignore library type
-
-    return plot_data_1d_x(
+    fig, ax, line = plot_data_1d_x(
         operators["basis"][1][0],
         measured_potential,
         axes,
@@ -328,6 +326,8 @@ def plot_diagonal_noise_operators_single_sample(  # noqa: PLR0913
         scale=scale,
         measure=measure,
     )
+    ax.set_ylabel("Energy /J")  # type: ignore library type
+    return fig, ax, line
 
 
 def plot_noise_operators_single_sample_x(  # noqa: PLR0913
-- 
2.43.0


From 8eee16a5c4a0dc0e8f2e5c4829a2b324682f7779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:25 +0000
Subject: [PATCH 06/71] fix: draw a noise sample from the truncated operators

---
 surface_potential_analysis/kernel/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/kernel/plot.py b/surface_potential_analysis/kernel/plot.py
index a91f9cf..04517fa 100644
--- a/surface_potential_analysis/kernel/plot.py
+++ b/surface_potential_analysis/kernel/plot.py
@@ -306,12 +306,12 @@ def plot_diagonal_noise_operators_single_sample(  # noqa: PLR0913
     measured_potential = np.zeros(truncated["basis"][1][0].n, dtype=np.complex128)
     for i, factor in enumerate(factors):
         operator = select_diagonal_operator(
-            operators,
+            truncated,
             idx=i,
         )
         measured_potential += (
             factor
-            * np.lib.scimath.sqrt(operators["eigenvalue"][i] * hbar)
+            * np.lib.scimath.sqrt(truncated["eigenvalue"][i] * hbar)
             * operator["data"]
         )
 
-- 
2.43.0


From c783ee8828f082c851f73a36fe67f774f3f99fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:30 +0000
Subject: [PATCH 07/71] fix: do not use a type-checking-only name when building
 a single point basis

---
 surface_potential_analysis/basis/conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/basis/conversion.py b/surface_potential_analysis/basis/conversion.py
index ee4b11f..4510045 100644
--- a/surface_potential_analysis/basis/conversion.py
+++ b/surface_potential_analysis/basis/conversion.py
@@ -108,7 +108,7 @@ def basis_as_n_point_basis(
     -------
     FundamentalPositionBasis[_N1Inv, _NDInv]
     """
-    return FundamentalPositionBasis[_N1Inv, int](delta_x, n)
+    return FundamentalPositionBasis(delta_x, n)
 
 
 def basis_as_single_point_basis(
-- 
2.43.0


From 4a95fcb78d4d1658123f6bad1f3031190fb87261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:37 +0000
Subject: [PATCH 08/71] fix: draw the operator diagonal on the axes it is given

---
 surface_potential_analysis/operator/plot.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/operator/plot.py b/surface_potential_analysis/operator/plot.py
index 2d087fe..7b6d25a 100644
--- a/surface_potential_analysis/operator/plot.py
+++ b/surface_potential_analysis/operator/plot.py
@@ -249,7 +249,11 @@ def plot_diagonal_operator_along_diagonal(
     tuple[Figure, Axes, Line2D]
     """
     fig, ax, line = plot_data_1d_n(
-        TupleBasis(operator["basis"][0]), operator["data"], measure=measure, scale=scale
+        TupleBasis(operator["basis"][0]),
+        operator["data"],
+        ax=ax,
+        measure=measure,
+        scale=scale,
     )
 
     line.set_label(f"{measure} operator")
-- 
2.43.0


From e533b8026f5e69436d3135bff9724e7c2e6db565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:49 +0000
Subject: [PATCH 09/71] fix: use the requested measure and axis length when
 animating through a surface

---
 surface_potential_analysis/util/plot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/util/plot.py b/surface_potential_analysis/util/plot.py
index 46bdf18..d89f89d 100644
--- a/surface_potential_analysis/util/plot.py
+++ b/surface_potential_analysis/util/plot.py
@@ -639,9 +639,10 @@ def animate_data_through_surface_x(
             measured_data[:, :, i],
             shading="nearest",
         ),
-        data.shape[2],
+        data_in_axis.shape[2],
         ax=ax,
         scale=scale,
+        measure=measure,
         clim=clim,
     )
     ax.set_aspect("equal", adjustable="box")
-- 
2.43.0


From 93fe6c98ab18277bf5019037a17e886171f53b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:49 +0000
Subject: [PATCH 10/71] fix: find the default index from the data converted to
 the plotted basis

---
 surface_potential_analysis/util/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/util/plot.py b/surface_potential_analysis/util/plot.py
index d89f89d..bdf33ec 100644
--- a/surface_potential_analysis/util/plot.py
+++ b/surface_potential_analysis/util/plot.py
@@ -269,7 +269,7 @@ def plot_data_1d_k(
     basis_k = stacked_basis_as_fundamental_momentum_basis(basis)
     converted_data = convert_vector(data, basis, basis_k)
 
-    idx = get_max_idx(basis_k, data, axes) if idx is None else idx
+    idx = get_max_idx(basis_k, converted_data, axes) if idx is None else idx
 
     coordinates = get_k_coordinates_in_axes(basis_k, axes, idx)
     data_in_axis = get_data_in_axes(converted_data.reshape(basis_k.shape), axes, idx)
-- 
2.43.0


From 25755cbc510e889fda9017510c0fdf7da1f8491f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:49 +0000
Subject: [PATCH 11/71] fix: use the momentum along the plotted axis for the
 drift

---
 surface_potential_analysis/state_vector/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/state_vector/plot.py b/surface_potential_analysis/state_vector/plot.py
index 62c62fc..a915b13 100644
--- a/surface_potential_analysis/state_vector/plot.py
+++ b/surface_potential_analysis/state_vector/plot.py
@@ -1716,7 +1716,7 @@ def plot_average_drift_1d_x(
     tuple[Figure, Axes, Line2D]
     """
     restored_x = _get_restored_x(states, axes[0])
-    k_points = _get_average_k(states, axis=0)
+    k_points = _get_average_k(states, axes[0])
     drift = get_normalized_average_drift(restored_x, k_points)
 
     return plot_average_value_list_against_time(
-- 
2.43.0


From 2aaf9fc7df7aaa97fa37792242ad279167b564c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:28 +0000
Subject: [PATCH 12/71] fix: register the squared scale so that it can be
 selected by name

---
 surface_potential_analysis/util/squared_scale.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/util/squared_scale.py b/surface_potential_analysis/util/squared_scale.py
index c222c61..f2ed07b 100644
--- a/surface_potential_analysis/util/squared_scale.py
+++ b/surface_potential_analysis/util/squared_scale.py
@@ -3,7 +3,7 @@ from __future__ import annotations
 from typing import TYPE_CHECKING, Self, Sequence
 
 import numpy as np
-from matplotlib.scale import ScaleBase
+from matplotlib.scale import ScaleBase, register_scale
 from matplotlib.ticker import Locator
 from matplotlib.transforms import Transform
 
@@ -81,3 +81,6 @@ class SquaredScale(ScaleBase):  # noqa: D101
 
         def inverted(self: Self) -> Transform:  # noqa: PLR6301
             return SquaredScale._SquaredTransform()
+
+
+register_scale(SquaredScale)
-- 
2.43.0


From 1f1f85141706db0cb34a39599cb339fbbc4cc174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:35 +0000
Subject: [PATCH 13/71] fix: give the periodic taylor expansion as many
 coefficients as operators

---
 surface_potential_analysis/kernel/solve/_taylor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/surface_potential_analysis/kernel/solve/_taylor.py b/surface_potential_analysis/kernel/solve/_taylor.py
index 16c2e30..c0dcb82 100644
--- a/surface_potential_analysis/kernel/solve/_taylor.py
+++ b/surface_potential_analysis/kernel/solve/_taylor.py
@@ -107,6 +107,7 @@ def get_periodic_noise_operators_explicit_taylor_expansion(
     # coefficients for the Taylor expansion of the trig terms
     coefficients = _get_periodic_coefficients_for_taylor_series(
         polynomial_coefficients=polynomial_coefficients,
+        n_terms=n_terms,
     )
     coefficients *= basis.n
 
-- 
2.43.0


From a87aeafaeb504912bcfea395604344ff192b4075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:29 +0000
Subject: [PATCH 14/71] fix: draw localized states from a generator local to
 the call

---
 .../dynamics/stochastic_schrodinger/solve.py                  | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
index 9e3d38b..51d1edb 100644
--- a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
+++ b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
@@ -574,9 +574,6 @@ def solve_stochastic_schrodinger_equation_rust_banded(  # type: ignore bad overl
     }
 
 
-rng = np.random.default_rng()
-
-
 def _select_random_localized_state(
     states: StateVectorList[_B2, _B1],
 ) -> StateVector[_B1]:
@@ -604,6 +601,7 @@ def _select_random_localized_state(
     probabilities = eigenstates["eigenvalue"]
     probabilities /= np.sum(probabilities)
 
+    rng = np.random.default_rng()
     idx = rng.choice(probabilities.size, p=probabilities)
     transformation = get_state_vector(eigenstates, idx)
     transformation["data"] /= np.sqrt(2)
-- 
2.43.0


From d94654585cc77835ca6c61ddc742338919cb6f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:12 +0000
Subject: [PATCH 15/71] fix: pair the default axes with the lengths in order
 when interpolating

---
 surface_potential_analysis/util/interpolation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/util/interpolation.py b/surface_potential_analysis/util/interpolation.py
index 05ca1bc..97f6916 100644
--- a/surface_potential_analysis/util/interpolation.py
+++ b/surface_potential_analysis/util/interpolation.py
@@ -102,7 +102,7 @@ def interpolate_points_fftn(
     NDArray
         The points interpolated along the given axes
     """
-    axes_arr = np.arange(-1, -1 - len(s), -1) if axes is None else np.array(axes)
+    axes_arr = np.arange(-len(s), 0) if axes is None else np.array(axes)
     # We use the forward norm here, as otherwise we would also need to
     # scale the ft_potential by a factor of n / shape[axis]
     # when we pad or truncate it
@@ -176,7 +176,7 @@ def interpolate_points_rfftn(
     -------
     np.ndarray[tuple, np.dtype[np.float_]]
     """
-    axes_arr = np.arange(-1, -1 - len(s), -1) if axes is None else np.array(axes)
+    axes_arr = np.arange(-len(s), 0) if axes is None else np.array(axes)
     ft_points = np.fft.rfftn(points, axes=axes_arr, norm="forward")  # type: ignore Argument of type "NDArray[signedinteger[Any]] | NDArray[Any]" cannot be assigned to parameter "axes" of type "Sequence[int] | None"
     # pad (or truncate) for the new lengths s
     # we don't need to pad the last axis here, as it is handled correctly by irfftn
-- 
2.43.0


From 3e577db591e0f2d05916b195f3d95f8e3212fbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:12 +0000
Subject: [PATCH 16/71] fix: return the interpolated points whatever axis is
 interpolated

---
 surface_potential_analysis/util/interpolation.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/surface_potential_analysis/util/interpolation.py b/surface_potential_analysis/util/interpolation.py
index 97f6916..a30da24 100644
--- a/surface_potential_analysis/util/interpolation.py
+++ b/surface_potential_analysis/util/interpolation.py
@@ -239,18 +239,15 @@ def interpolate_points_along_axis_spline(
     """Use a spline interpolation to increase the Z resolution, spacing z linearly."""
     new_coords = list(np.linspace(old_coords[0], old_coords[-1], n))  # type: ignore bad type inference
 
-    new_shape = list(data.shape)
-    new_shape[axis] = n
-    points = np.empty(new_shape)
-
-    swapped_points = points.swapaxes(axis, -1).reshape(-1, n)
-
-    flat_data = data.swapaxes(axis, -1).reshape(-1, data.shape[axis])
+    swapped_data = data.swapaxes(axis, -1)
+    flat_data = swapped_data.reshape(-1, data.shape[axis])
+    points = np.empty((flat_data.shape[0], n))
 
     for i in range(flat_data.shape[0]):
         old_energies = flat_data[i]
         tck = scipy.interpolate.splrep(old_coords, old_energies, s=0)  # type: ignore bad type inference
         new_energy = scipy.interpolate.splev(new_coords, tck, der=0)  # type: ignore bad type inference
-        swapped_points[i] = new_energy  # type: ignore bad type inference
+        points[i] = new_energy  # type: ignore bad type inference
 
-    return points  # type: ignore[no-any-return]
+    swapped_points = points.reshape(*swapped_data.shape[:-1], n)
+    return swapped_points.swapaxes(axis, -1)  # type: ignore[no-any-return]
-- 
2.43.0


From 0832c119d2911ad69ec0a5f8f8001ae1a48bc344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:49 +0000
Subject: [PATCH 17/71] fix: reshape the converted operator to its own basis in
 list products

---
 surface_potential_analysis/operator/operations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/operator/operations.py b/surface_potential_analysis/operator/operations.py
index ed57d85..bf16f97 100644
--- a/surface_potential_analysis/operator/operations.py
+++ b/surface_potential_analysis/operator/operations.py
@@ -75,7 +75,7 @@ def matmul_list_operator(
 
     data = np.tensordot(
         lhs["data"].reshape(-1, *lhs["basis"][1].shape),
-        converted["data"].reshape(rhs["basis"].shape),
+        converted["data"].reshape(converted["basis"].shape),
         axes=(2, 0),
     ).reshape(-1)
     return {
@@ -175,7 +175,7 @@ def matmul_operator_diagonal_list(
     )
     data = np.einsum(  # type: ignore lib
         "ik,mk->mik",
-        converted["data"].reshape(lhs["basis"].shape),
+        converted["data"].reshape(converted["basis"].shape),
         rhs["data"].reshape(-1, rhs["basis"][1][0].n),
     ).reshape(-1)
     return {
-- 
2.43.0


From 23fe248674434f5fac466bdc0395a3413797cf5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:49 +0000
Subject: [PATCH 18/71] fix: tag the states along several axes in the order of
 the axes

---
 surface_potential_analysis/state_vector/state_vector_list.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/surface_potential_analysis/state_vector/state_vector_list.py b/surface_potential_analysis/state_vector/state_vector_list.py
index a943e20..4ad32e3 100644
--- a/surface_potential_analysis/state_vector/state_vector_list.py
+++ b/surface_potential_analysis/state_vector/state_vector_list.py
@@ -333,9 +333,7 @@ def get_state_along_axis(
     """
     ndim = states["basis"][0].ndim
     idx = tuple(0 for _ in range(ndim - len(axes))) if idx is None else idx
-    final_basis = TupleBasis(
-        *tuple(b for (i, b) in enumerate(states["basis"][0]) if i in axes)
-    )
+    final_basis = TupleBasis(*tuple(states["basis"][0][ax] for ax in axes))
 
     vector = get_data_in_axes(
         states["data"].reshape(*states["basis"][0].shape, -1),
-- 
2.43.0


From 0326b2a5b7e0da812c0e96ea45cca62e470cdc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:49 +0000
Subject: [PATCH 19/71] fix: use one factor of the diagonal basis in
 as_flat_operator

---
 surface_potential_analysis/operator/operator_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/operator/operator_list.py b/surface_potential_analysis/operator/operator_list.py
index cedda1a..615c85f 100644
--- a/surface_potential_analysis/operator/operator_list.py
+++ b/surface_potential_analysis/operator/operator_list.py
@@ -213,7 +213,7 @@ def as_flat_operator(
 
     """
     basis = TupleBasis[_B0, Unpack[tuple[Any, ...]]](
-        operator_list["basis"][0], *operator_list["basis"][1]
+        operator_list["basis"][0], operator_list["basis"][1][0]
     )
     return {
         "basis": TupleBasis(basis, basis),
-- 
2.43.0


From 14dc975419a03c2b49b3ef6755339da42c3075a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:49 +0000
Subject: [PATCH 20/71] fix: tag the probabilities of a density matrix with a
 single basis

---
 .../dynamics/incoherent_propagation/tunnelling_matrix.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py b/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
index d0b9983..df78500 100644
--- a/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
+++ b/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
@@ -373,7 +373,7 @@ def density_matrix_as_probability(
     -------
     ProbabilityVector[_B0Inv]
     """
-    return {"basis": matrix["basis"], "data": np.real(matrix["data"])}  # type: ignore[typeddict-item]
+    return {"basis": matrix["basis"][0], "data": np.real(matrix["data"])}  # type: ignore[typeddict-item]
 
 
 def density_matrix_list_as_probabilities(
-- 
2.43.0


From ca8f318c70edf54907ac24cb3f0eb7965c6de6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:12 +0000
Subject: [PATCH 21/71] fix: select probabilities along the axes of the list
 basis

---
 .../probability_vector/probability_vector.py           | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/surface_potential_analysis/probability_vector/probability_vector.py b/surface_potential_analysis/probability_vector/probability_vector.py
index 5e5902d..9ef82ea 100644
--- a/surface_potential_analysis/probability_vector/probability_vector.py
+++ b/surface_potential_analysis/probability_vector/probability_vector.py
@@ -114,16 +114,14 @@ def get_probability_along_axis(
     ProbabilityVector[_B0Inv]
     """
     ndim = probabilities["basis"][0].ndim
-    idx = tuple(0 for _ in range(ndim - 2)) if idx is None else idx
-    final_basis = TupleBasis(
-        *tuple(b for (i, b) in enumerate(probabilities["basis"][0]) if i in axes)
-    )
+    idx = tuple(0 for _ in range(ndim - len(axes))) if idx is None else idx
+    final_basis = TupleBasis(*tuple(probabilities["basis"][0][ax] for ax in axes))
 
     vector = get_data_in_axes(
-        probabilities["data"].reshape(probabilities["basis"].shape),
+        probabilities["data"].reshape(*probabilities["basis"][0].shape, -1),
         (*axes, ndim),
         idx,
-    ).reshape(*final_basis.shape, -1)
+    ).reshape(-1)
     return {
         "basis": TupleBasis(final_basis, probabilities["basis"][1]),
         "data": vector,
-- 
2.43.0


From 7bff01444a43016dc21f91eb63a18256fb5f2fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:12 +0000
Subject: [PATCH 22/71] fix: tag summed probabilities with a basis and not a
 tuple

---
 .../probability_vector/probability_vector.py                  | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/probability_vector/probability_vector.py b/surface_potential_analysis/probability_vector/probability_vector.py
index 9ef82ea..93af118 100644
--- a/surface_potential_analysis/probability_vector/probability_vector.py
+++ b/surface_potential_analysis/probability_vector/probability_vector.py
@@ -144,7 +144,9 @@ def sum_probability(
     ProbabilityVector[Any]
     """
     axis = tuple(range(probability["basis"].ndim)) if axis is None else axis
-    basis = tuple(b for (i, b) in enumerate(probability["basis"]) if i not in axis)
+    basis = TupleBasis(
+        *tuple(b for (i, b) in enumerate(probability["basis"]) if i not in axis)
+    )
     return {
         "basis": basis,
         "data": (
-- 
2.43.0


From 61da2f0a72b2effa688f4d1c27b2d03058cae559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:12 +0000
Subject: [PATCH 23/71] fix: count the axes of the averaged basis when no axis
 is given

---
 surface_potential_analysis/operator/operator.py             | 6 ++++--
 .../probability_vector/probability_vector.py                | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/surface_potential_analysis/operator/operator.py b/surface_potential_analysis/operator/operator.py
index 7938035..dcc8019 100644
--- a/surface_potential_analysis/operator/operator.py
+++ b/surface_potential_analysis/operator/operator.py
@@ -167,7 +167,7 @@ def average_eigenvalues(
     -------
     EigenvalueList[Any]
     """
-    axis = tuple(range(eigenvalues["basis"].ndim)) if axis is None else axis
+    axis = tuple(range(eigenvalues["basis"][0].ndim)) if axis is None else axis
     basis = tuple(b for (i, b) in enumerate(eigenvalues["basis"][0]) if i not in axis)
     return {
         "basis": TupleBasis(TupleBasis(*basis), TupleBasis(*basis)),
@@ -200,7 +200,9 @@ def average_eigenvalues_list(
     -------
     EigenvalueList[Any]
     """
-    axis = tuple(range(eigenvalues["basis"].ndim)) if axis is None else axis
+    axis = (
+        tuple(range(eigenvalues["basis"][1][0].ndim)) if axis is None else axis
+    )
     basis = tuple(
         b for (i, b) in enumerate(eigenvalues["basis"][1][0]) if i not in axis
     )
diff --git a/surface_potential_analysis/probability_vector/probability_vector.py b/surface_potential_analysis/probability_vector/probability_vector.py
index 93af118..7a60f3a 100644
--- a/surface_potential_analysis/probability_vector/probability_vector.py
+++ b/surface_potential_analysis/probability_vector/probability_vector.py
@@ -173,7 +173,7 @@ def sum_probabilities(
     -------
     ProbabilityVectorList[Any, _L0Inv]
     """
-    axis = tuple(range(probabilities["basis"].ndim)) if axis is None else axis
+    axis = tuple(range(probabilities["basis"][1].ndim)) if axis is None else axis
     basis = TupleBasis(
         *tuple(b for (i, b) in enumerate(probabilities["basis"][1]) if i not in axis)
     )
-- 
2.43.0


From 4c635d0a3b5ca3b483784ff94ea63393e8beb673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:00 +0000
Subject: [PATCH 24/71] fix: use the simulation basis of tunnelling matrices to
 find their shape

---
 .../incoherent_propagation/tunnelling_matrix.py       | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py b/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
index df78500..048edc1 100644
--- a/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
+++ b/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
@@ -93,8 +93,8 @@ def get_jump_matrix_from_a_matrix(
     -------
     TunnellingJumpMatrix[_L2Inv]
     """
-    n_bands = matrix["basis"][2].fundamental_n
-    util = BasisUtil(matrix["basis"])
+    n_bands = matrix["basis"][0][2].fundamental_n
+    util = BasisUtil(matrix["basis"][0])
     stacked = matrix["data"].reshape(*util.shape, *util.shape)
     data = np.zeros((n_bands, n_bands, 9), dtype=np.complex128)
     for n_0 in range(n_bands):
@@ -169,12 +169,13 @@ def get_a_matrix_from_jump_matrix(
     -------
     TunnellingAMatrix[ tuple[ FundamentalBasis[_L0Inv], FundamentalBasis[_L1Inv], TunnellingSimulationBandsBasis[int], ] ]
     """
-    n_bands = matrix["basis"].fundamental_n if n_bands is None else n_bands
+    n_bands_jump = matrix["basis"][0].fundamental_n
+    n_bands = n_bands_jump if n_bands is None else n_bands
     final_basis = get_basis_from_shape(shape, n_bands, matrix["basis"][0])
     final_util = BasisUtil(final_basis)
 
     (n_x0, n_x1) = shape
-    jump_stacked = matrix["data"].reshape(n_bands, n_bands, 9)
+    jump_stacked = matrix["data"].reshape(n_bands_jump, n_bands_jump, 9)
     array = np.zeros((*final_util.shape, *final_util.shape), dtype=np.complex128)
     for n_0 in range(n_bands):
         for n_1 in range(n_bands):
@@ -272,7 +273,7 @@ def get_a_matrix_reduced_bands(
     -------
     TunnellingMMatrix[tuple[_AX0Inv, _AX1Inv, TunnellingSimulationBandsBasis[_L1Inv]]]
     """
-    util = BasisUtil(matrix["basis"])
+    util = BasisUtil(matrix["basis"][0])
     a_basis = TupleBasis(
         matrix["basis"][0][0],
         matrix["basis"][0][1],
-- 
2.43.0


From 7d321115f5818015a1c612fa75163a77937166f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:00 +0000
Subject: [PATCH 25/71] fix: average the ISF over the bands of the simulation
 basis

---
 .../dynamics/incoherent_propagation/isf.py     | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/surface_potential_analysis/dynamics/incoherent_propagation/isf.py b/surface_potential_analysis/dynamics/incoherent_propagation/isf.py
index d35fc80..926381f 100644
--- a/surface_potential_analysis/dynamics/incoherent_propagation/isf.py
+++ b/surface_potential_analysis/dynamics/incoherent_propagation/isf.py
@@ -96,7 +96,7 @@ def calculate_equilibrium_state_averaged_isf(
     -------
     EigenvalueList[_L0Inv]
     """
-    util = BasisUtil(matrix["basis"])
+    util = BasisUtil(matrix["basis"][0])
     eigenstates = calculate_tunnelling_eigenstates(matrix)
     equilibrium = get_equilibrium_state(eigenstates)
 
@@ -114,7 +114,7 @@ def calculate_equilibrium_state_averaged_isf(
         isf = calculate_isf_approximate_locations(
             initial_probability, final_probabilities, dk
         )
-        eigenvalues[band] = isf
+        eigenvalues[band] = isf["data"]
     isf_per_band: SingleBasisDiagonalOperator[
         TupleBasis[FundamentalBasis[int], ExplicitTimeBasis[_L0Inv]]
     ] = {
@@ -127,7 +127,10 @@ def calculate_equilibrium_state_averaged_isf(
     averaged = average_eigenvalues(
         isf_per_band, (0,), weights=np.abs(occupation_probabilities["data"])
     )
-    return {"basis": averaged["basis"][0][0], "data": averaged["data"]}
+    return {
+        "basis": TupleBasis(averaged["basis"][0][0], averaged["basis"][0][0]),
+        "data": averaged["data"],
+    }
 
 
 def calculate_equilibrium_initial_state_isf(
@@ -151,9 +154,10 @@ def calculate_equilibrium_initial_state_isf(
     eigenstates = calculate_tunnelling_eigenstates(matrix)
 
     vectors = np.zeros(
-        (matrix["basis"].shape[2], times.size, matrix["basis"].n), dtype=np.complex128
+        (matrix["basis"][0].shape[2], times.size, matrix["basis"][0].n),
+        dtype=np.complex128,
     )
-    for band in range(matrix["basis"].shape[2]):
+    for band in range(matrix["basis"][0].shape[2]):
         initial_state = get_initial_pure_density_matrix_for_basis(
             matrix["basis"][0], (0, 0, band)
         )
@@ -165,7 +169,7 @@ def calculate_equilibrium_initial_state_isf(
     ] = {
         "basis": TupleBasis(
             TupleBasis(
-                FundamentalBasis(matrix["basis"].shape[2]), ExplicitTimeBasis(times)
+                FundamentalBasis(matrix["basis"][0].shape[2]), ExplicitTimeBasis(times)
             ),
             matrix["basis"][0],
         ),
@@ -176,7 +180,7 @@ def calculate_equilibrium_initial_state_isf(
     occupation_probabilities = sum_probability(
         density_matrix_as_probability(equilibrium), (0, 1)
     )
-    vector = np.zeros(matrix["basis"].shape, dtype=np.complex128)
+    vector = np.zeros(matrix["basis"][0].shape, dtype=np.complex128)
     vector[0, 0, :] = occupation_probabilities["data"]
     initial: ProbabilityVector[_B0Inv] = {
         "basis": matrix["basis"][0],
-- 
2.43.0


From bf3d02186176d8cae820bbba8d24f44f51026f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:00 +0000
Subject: [PATCH 26/71] fix: return the eigenvalues in the rate decomposition

---
 .../dynamics/incoherent_propagation/isf.py                      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/incoherent_propagation/isf.py b/surface_potential_analysis/dynamics/incoherent_propagation/isf.py
index 926381f..4b7c61c 100644
--- a/surface_potential_analysis/dynamics/incoherent_propagation/isf.py
+++ b/surface_potential_analysis/dynamics/incoherent_propagation/isf.py
@@ -219,4 +219,4 @@ def get_rate_decomposition(
     """
     eigenstates = calculate_tunnelling_eigenstates(matrix)
     coefficients = get_operator_state_vector_decomposition(initial, eigenstates)
-    return RateDecomposition(eigenstates["data"], coefficients)
+    return RateDecomposition(eigenstates["eigenvalue"], coefficients)
-- 
2.43.0


From 719c6802b3e96e20848374c87e49e28c0450a223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:14 +0000
Subject: [PATCH 27/71] fix: tag the averaged ISF with the basis of an operator
 before plotting it

---
 surface_potential_analysis/dynamics/isf_plot.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/isf_plot.py b/surface_potential_analysis/dynamics/isf_plot.py
index 61ac6a4..e705907 100644
--- a/surface_potential_analysis/dynamics/isf_plot.py
+++ b/surface_potential_analysis/dynamics/isf_plot.py
@@ -2,6 +2,7 @@ from __future__ import annotations
 
 from typing import TYPE_CHECKING, Any, TypeVar
 
+from surface_potential_analysis.basis.stacked_basis import TupleBasis
 from surface_potential_analysis.dynamics.isf import (
     ISF4VariableFit,
     ISFFey4VariableFit,
@@ -102,7 +103,10 @@ def plot_average_isf_against_time(
     """
     averaged = average_eigenvalues(eigenvalues, (0,))
     return plot_isf_against_time(
-        {"basis": averaged["basis"][0][0], "data": averaged["data"]},
+        {
+            "basis": TupleBasis(averaged["basis"][0][0], averaged["basis"][0][0]),
+            "data": averaged["data"],
+        },
         ax=ax,
         measure=measure,
         scale=scale,
-- 
2.43.0


From daf9d412f96aa7a6beee9e2cb166568af3edad12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:07 +0000
Subject: [PATCH 28/71] fix: animate the potential in the position basis it is
 converted to

---
 surface_potential_analysis/potential/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/potential/plot.py b/surface_potential_analysis/potential/plot.py
index 66a0f37..754e520 100644
--- a/surface_potential_analysis/potential/plot.py
+++ b/surface_potential_analysis/potential/plot.py
@@ -316,9 +316,9 @@ def animate_potential_3d_x(
     tuple[Figure, Axes, ArtistAnimation]
     """
     converted = convert_potential_to_position_basis(potential)
-    points = potential["data"].reshape(converted["basis"].shape)
+    points = converted["data"].reshape(converted["basis"].shape)
     fig, ax, ani = animate_data_through_surface_x(  # type: ignore[misc]
-        potential["basis"],
+        converted["basis"],
         points,
         axes,
         idx,
-- 
2.43.0


From f6525aadb9c226e58295be9f6d51595e6f67f79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:07 +0000
Subject: [PATCH 29/71] fix: size the bloch states by the converted list of
 wavevectors

---
 surface_potential_analysis/wavepacket/get_eigenstate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/wavepacket/get_eigenstate.py b/surface_potential_analysis/wavepacket/get_eigenstate.py
index 1f745a7..0ff9638 100644
--- a/surface_potential_analysis/wavepacket/get_eigenstate.py
+++ b/surface_potential_analysis/wavepacket/get_eigenstate.py
@@ -488,7 +488,7 @@ def get_bloch_states(
         )
     )
     out = np.zeros(
-        (*wavepackets["basis"][0].shape, decompressed_basis.n), dtype=np.complex128
+        (*converted["basis"][0].shape, decompressed_basis.n), dtype=np.complex128
     )
 
     util = BasisUtil(converted["basis"][0][1])
@@ -513,7 +513,7 @@ def get_bloch_states(
         )
 
         out[:, idx, :] = full_states["data"].reshape(
-            wavepackets["basis"][0][0].n, decompressed_basis.n
+            converted["basis"][0][0].n, decompressed_basis.n
         )
 
     return {
-- 
2.43.0


From 5152a2b614d63550a2574d70b4eb5d0d45da0b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:07 +0000
Subject: [PATCH 30/71] fix: take the real part of the potential explicitly
 before interpolating

---
 surface_potential_analysis/potential/potential.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/potential/potential.py b/surface_potential_analysis/potential/potential.py
index ac1d199..d98994b 100644
--- a/surface_potential_analysis/potential/potential.py
+++ b/surface_potential_analysis/potential/potential.py
@@ -249,7 +249,7 @@ def interpolate_uneven_potential(
     """
     util = BasisUtil(data["basis"])
     xy_interpolated = interpolate_points_rfftn(
-        data["data"].reshape(util.shape).astype(np.float64),
+        np.real(data["data"]).reshape(util.shape),
         s=(shape[0], shape[1]),
         axes=(0, 1),
     )
-- 
2.43.0


From 88eaf6f63fdb0ecc9b7f82cbd99b98288778e236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:26 +0000
Subject: [PATCH 31/71] fix: declare the operators plotted along their diagonal
 as diagonal

---
 surface_potential_analysis/operator/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/operator/plot.py b/surface_potential_analysis/operator/plot.py
index 7b6d25a..d1a39c6 100644
--- a/surface_potential_analysis/operator/plot.py
+++ b/surface_potential_analysis/operator/plot.py
@@ -363,7 +363,7 @@ def plot_operator_along_diagonal_1d_x(  # noqa:PLR0913
 
 
 def plot_diagonal_operator_along_diagonal_1d_x(  # noqa:PLR0913
-    operator: SingleBasisOperator[_SB0],
+    operator: SingleBasisDiagonalOperator[_SB0],
     axes: tuple[int] = (0,),
     idx: SingleStackedIndexLike | None = None,
     *,
@@ -437,7 +437,7 @@ def plot_operator_along_diagonal_2d_x(  # noqa:PLR0913
 
 
 def plot_diagonal_operator_along_diagonal_2d_x(  # noqa:PLR0913
-    operator: SingleBasisOperator[_SB0],
+    operator: SingleBasisDiagonalOperator[_SB0],
     axes: tuple[int, int] = (0, 1),
     idx: SingleStackedIndexLike | None = None,
     *,
-- 
2.43.0


From f6d89e50c99646e242d2b8441c5f486e4853afee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:26 +0000
Subject: [PATCH 32/71] fix: give the identity localization operator one state
 per band

---
 surface_potential_analysis/wavepacket/localization_operator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/wavepacket/localization_operator.py b/surface_potential_analysis/wavepacket/localization_operator.py
index 7da10f1..a4487f0 100644
--- a/surface_potential_analysis/wavepacket/localization_operator.py
+++ b/surface_potential_analysis/wavepacket/localization_operator.py
@@ -204,7 +204,7 @@ def get_identity_operator(
     return diagonal_operator_list_as_full(
         {
             "basis": TupleBasis(
-                basis[1], TupleBasis(FundamentalBasis(basis[1].n), basis[0])
+                basis[1], TupleBasis(FundamentalBasis(basis[0].n), basis[0])
             ),
             "data": np.ones(basis.n, dtype=np.complex128),
         }
-- 
2.43.0


From 5d4b626388b693c65f86b48de17f7ac9b44adad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:38 +0000
Subject: [PATCH 33/71] fix: tag full kernels of rectangular noise operators
 with the order of their data

---
 surface_potential_analysis/kernel/build.py             | 4 ++--
 surface_potential_analysis/kernel/conversion.py        | 6 +++---
 surface_potential_analysis/kernel/kernel.py            | 9 ++++++---
 surface_potential_analysis/kernel/solve/_eigenvalue.py | 4 ++--
 4 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/surface_potential_analysis/kernel/build.py b/surface_potential_analysis/kernel/build.py
index df4b6d5..c93aa16 100644
--- a/surface_potential_analysis/kernel/build.py
+++ b/surface_potential_analysis/kernel/build.py
@@ -324,9 +324,9 @@ def truncate_noise_operator_list(
 
 
 def truncate_noise_kernel(
-    kernel: NoiseKernel[_B0, _B1, _B0, _B1],
+    kernel: NoiseKernel[_B1, _B0, _B0, _B1],
     truncation: Iterable[int],
-) -> NoiseKernel[_B0, _B1, _B0, _B1]:
+) -> NoiseKernel[_B1, _B0, _B0, _B1]:
     """
     Given a noise kernel, retain only the first n noise operators.
 
diff --git a/surface_potential_analysis/kernel/conversion.py b/surface_potential_analysis/kernel/conversion.py
index 20d3a0c..5c18a45 100644
--- a/surface_potential_analysis/kernel/conversion.py
+++ b/surface_potential_analysis/kernel/conversion.py
@@ -78,9 +78,9 @@ def convert_diagonal_noise_operator_list_to_basis(
 
 
 def convert_kernel_to_basis(
-    kernel: NoiseKernel[_B0, _B1, _B0, _B1],
+    kernel: NoiseKernel[_B1, _B0, _B0, _B1],
     basis: TupleBasisLike[_B2, _B3],
-) -> NoiseKernel[_B2, _B3, _B2, _B3]:
+) -> NoiseKernel[_B3, _B2, _B2, _B3]:
     """Convert the kernel to the given basis.
 
     Parameters
@@ -100,7 +100,7 @@ def convert_kernel_to_basis(
 def convert_diagonal_kernel_to_basis(
     kernel: DiagonalNoiseKernel[_B0, _B1, _B0, _B1],
     basis: TupleBasisLike[_B2, _B3],
-) -> NoiseKernel[_B2, _B3, _B2, _B3]:
+) -> NoiseKernel[_B3, _B2, _B2, _B3]:
     """Convert the kernel to the given basis.
 
     Parameters
diff --git a/surface_potential_analysis/kernel/kernel.py b/surface_potential_analysis/kernel/kernel.py
index 8928a73..5a741b5 100644
--- a/surface_potential_analysis/kernel/kernel.py
+++ b/surface_potential_analysis/kernel/kernel.py
@@ -428,7 +428,7 @@ def as_noise_operators_from_diagonal(
 
 def get_full_kernel_from_operators(
     operators: NoiseOperatorList[_B2, _B0, _B1],
-) -> NoiseKernel[_B0, _B1, _B0, _B1]:
+) -> NoiseKernel[_B1, _B0, _B0, _B1]:
     """
     Build a full kernel from operators.
 
@@ -438,7 +438,7 @@ def get_full_kernel_from_operators(
 
     Returns
     -------
-    NoiseKernel[_B0, _B1, _B0, _B1]
+    NoiseKernel[_B1, _B0, _B0, _B1]
     """
     operators_data = operators["data"].reshape(
         operators["basis"][0].n, *operators["basis"][1].shape
@@ -451,7 +451,10 @@ def get_full_kernel_from_operators(
         operators_data,
     )
     return {
-        "basis": TupleBasis(operators["basis"][1], operators["basis"][1]),
+        "basis": TupleBasis(
+            TupleBasis(operators["basis"][1][1], operators["basis"][1][0]),
+            operators["basis"][1],
+        ),
         "data": data.reshape(-1),
     }
 
diff --git a/surface_potential_analysis/kernel/solve/_eigenvalue.py b/surface_potential_analysis/kernel/solve/_eigenvalue.py
index 8eb2509..d6c4161 100644
--- a/surface_potential_analysis/kernel/solve/_eigenvalue.py
+++ b/surface_potential_analysis/kernel/solve/_eigenvalue.py
@@ -31,7 +31,7 @@ if TYPE_CHECKING:
 
 
 def get_periodic_noise_operators_eigenvalue(
-    kernel: NoiseKernel[_B0, _B1, _B0, _B1],
+    kernel: NoiseKernel[_B1, _B0, _B0, _B1],
 ) -> NoiseOperatorList[FundamentalBasis[int], _B0, _B1]:
     r"""
     Given a noise kernel, find the noise operator which diagonalizes the kernel.
@@ -76,7 +76,7 @@ def get_periodic_noise_operators_eigenvalue(
     # When we diagonalize we have \hat{Z}'_\beta = U^\dagger_{\beta, \alpha} \hat{Z}_\alpha
     # np.conj(res.eigenvectors) is U^\dagger_{\beta, \alpha}
     return {
-        "basis": TupleBasis(FundamentalBasis(kernel["basis"][0].n), kernel["basis"][0]),
+        "basis": TupleBasis(FundamentalBasis(kernel["basis"][1].n), kernel["basis"][1]),
         "data": np.conj(np.transpose(res.eigenvectors)).reshape(-1),
         "eigenvalue": res.eigenvalues,
     }
-- 
2.43.0


From 8c3970a2a8e4d8f480edc298b07b8b33f048fcc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:07 +0000
Subject: [PATCH 34/71] fix: build linear noise operators in the fundamental
 position basis in which they are diagonal

---
 .../kernel/solve/_taylor.py                    | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/surface_potential_analysis/kernel/solve/_taylor.py b/surface_potential_analysis/kernel/solve/_taylor.py
index c0dcb82..333dd4a 100644
--- a/surface_potential_analysis/kernel/solve/_taylor.py
+++ b/surface_potential_analysis/kernel/solve/_taylor.py
@@ -119,28 +119,32 @@ def get_periodic_noise_operators_explicit_taylor_expansion(
 
 
 def _get_linear_operators_for_noise(
-    basis: _B0, *, n_terms: int | None = None
-) -> SingleBasisDiagonalOperatorList[FundamentalBasis[int], _B0]:
-    n_terms = basis.n if n_terms is None else n_terms
+    basis: _BL0, *, n_terms: int | None = None
+) -> SingleBasisDiagonalOperatorList[
+    FundamentalBasis[int], FundamentalPositionBasis[Any, Any]
+]:
+    # the operators are only diagonal in the fundamental position basis
+    basis_x = basis_as_fundamental_position_basis(basis)
+    n_terms = basis_x.n if n_terms is None else n_terms
 
     displacements = (
-        2 * np.pi * get_displacements_matrix_nx(basis)[basis.n // 2] / basis.n
+        2 * np.pi * get_displacements_matrix_nx(basis_x)[basis_x.n // 2] / basis_x.n
     )
     data = np.array([displacements**n for n in range(n_terms)], dtype=np.complex128)
     return {
-        "basis": TupleBasis(FundamentalBasis(n_terms), TupleBasis(basis, basis)),
+        "basis": TupleBasis(FundamentalBasis(n_terms), TupleBasis(basis_x, basis_x)),
         "data": data,
     }
 
 
 def get_linear_noise_operators_explicit_taylor_expansion(
-    basis: _B0,
+    basis: _BL0,
     polynomial_coefficients: np.ndarray[tuple[int], np.dtype[np.float64]],
     *,
     n_terms: int | None = None,
 ) -> SingleBasisDiagonalNoiseOperatorList[
     FundamentalBasis[int],
-    _B0,
+    FundamentalPositionBasis[Any, Any],
 ]:
     """Note polynomial_coefficients should be properly normalized.
 
-- 
2.43.0


From d1bd58c87cf4beae629a8fa1176850f4b18c0c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:48 +0000
Subject: [PATCH 35/71] fix: cast real vectors to complex when no change of
 basis is needed

---
 surface_potential_analysis/basis/basis_like.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/basis/basis_like.py b/surface_potential_analysis/basis/basis_like.py
index 0204947..34a7050 100644
--- a/surface_potential_analysis/basis/basis_like.py
+++ b/surface_potential_analysis/basis/basis_like.py
@@ -308,7 +308,7 @@ class BasisLike(
     ) -> np.ndarray[Any, np.dtype[np.complex128]]:
         assert basis.fundamental_n == self.fundamental_n
         if self == basis:
-            return vector.view(np.complex128)
+            return vector.astype(np.complex128, copy=False)
         # Small speedup here, and prevents imprecision of fft followed by ifft
         # And two pad_ft_points
         if isinstance(self, AsTransformedBasis) and isinstance(
-- 
2.43.0


From be122a6404568595dd5629197611b30df5cd15af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:07 +0000
Subject: [PATCH 36/71] fix: truncate diagonal kernels through their diagonal
 operators

---
 surface_potential_analysis/kernel/build.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/kernel/build.py b/surface_potential_analysis/kernel/build.py
index c93aa16..f8cd3eb 100644
--- a/surface_potential_analysis/kernel/build.py
+++ b/surface_potential_analysis/kernel/build.py
@@ -18,7 +18,7 @@ from surface_potential_analysis.kernel.kernel import (
     DiagonalNoiseKernel,
     IsotropicNoiseKernel,
     SingleBasisNoiseOperatorList,
-    get_diagonal_kernel_from_operators,
+    get_diagonal_kernel_from_diagonal_operators,
     get_full_kernel_from_operators,
 )
 from surface_potential_analysis.kernel.solve._eigenvalue import (
@@ -364,4 +364,4 @@ def truncate_diagonal_noise_kernel(
     operators = get_periodic_noise_operators_diagonal_eigenvalue(kernel)
 
     truncated = truncate_diagonal_noise_operator_list(operators, truncation)
-    return get_diagonal_kernel_from_operators(truncated)
+    return get_diagonal_kernel_from_diagonal_operators(truncated)
-- 
2.43.0


From 7aaf342b58fe3441f9e1827abe97021bf4038eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:03 +0000
Subject: [PATCH 37/71] fix: take the isotropic kernel from the column of state
 0, as the diagonal kernel is built from it

---
 surface_potential_analysis/kernel/kernel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/kernel/kernel.py b/surface_potential_analysis/kernel/kernel.py
index 5a741b5..928a55b 100644
--- a/surface_potential_analysis/kernel/kernel.py
+++ b/surface_potential_analysis/kernel/kernel.py
@@ -243,7 +243,7 @@ def as_isotropic_kernel_from_diagonal(
     -------
     IsotropicNoiseKernel[_B0]
     """
-    data = kernel["data"].reshape(kernel["basis"][0].shape)[0]
+    data = kernel["data"].reshape(kernel["basis"][0].shape)[:, 0]
     out: IsotropicNoiseKernel[_B0] = {"basis": kernel["basis"][0][0], "data": data}
 
     if assert_isotropic:
-- 
2.43.0


From c341e13c23591122f6690ef09f616351c7e12b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:23 +0000
Subject: [PATCH 38/71] fix: drop the unused transform that made the overlap
 momentum conversion fail

---
 surface_potential_analysis/overlap/conversion.py | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/surface_potential_analysis/overlap/conversion.py b/surface_potential_analysis/overlap/conversion.py
index f55523e..86cd660 100644
--- a/surface_potential_analysis/overlap/conversion.py
+++ b/surface_potential_analysis/overlap/conversion.py
@@ -2,8 +2,6 @@ from __future__ import annotations
 
 from typing import TYPE_CHECKING, Any, Literal, TypeVar
 
-import numpy as np
-
 from surface_potential_analysis.basis.basis_like import (
     BasisLike,
     BasisWithLengthLike,
@@ -81,14 +79,6 @@ def convert_overlap_to_momentum_basis(
     -------
     OverlapMomentum[_L0Inv, _L1Inv, _L2Inv]
     """
-    transformed = np.fft.ifftn(
-        overlap["data"].reshape(overlap["basis"].shape),
-        axes=(0, 1, 2),
-        s=overlap["basis"].fundamental_shape,
-        norm="forward",
-    )
-    transformed.reshape(-1)
-
     return convert_overlap_to_basis(
         overlap, stacked_basis_as_fundamental_momentum_basis(overlap["basis"][0])
     )
-- 
2.43.0


From 16c7166da554266a7aec4547d9a4ceffa98f98fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:42 +0000
Subject: [PATCH 39/71] fix: keep the imaginary part of off diagonal energies

---
 .../hamiltonian_builder/sho_subtracted_basis.py           | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/surface_potential_analysis/hamiltonian_builder/sho_subtracted_basis.py b/surface_potential_analysis/hamiltonian_builder/sho_subtracted_basis.py
index 76bb219..5260890 100644
--- a/surface_potential_analysis/hamiltonian_builder/sho_subtracted_basis.py
+++ b/surface_potential_analysis/hamiltonian_builder/sho_subtracted_basis.py
@@ -229,13 +229,13 @@ class _SurfaceHamiltonianUtil(
 
     def _calculate_off_diagonal_entry(
         self, nz1: int, nz2: int, ndk0: int, ndk1: int
-    ) -> float:
+    ) -> complex:
         """Calculate the off diagonal energy using the 'folded' points ndk0, ndk1."""
         ft_pot_points = self.get_ft_potential()[ndk0, ndk1]
         hermite1 = BasisUtil(self.basis[2]).vectors[nz1]
         hermite2 = BasisUtil(self.basis[2]).vectors[nz2]
 
-        fourier_transform = float(np.sum(hermite1 * hermite2 * ft_pot_points))
+        fourier_transform = complex(np.sum(hermite1 * hermite2 * ft_pot_points))
 
         return self.dz * fourier_transform
 
@@ -243,7 +243,9 @@ class _SurfaceHamiltonianUtil(
         self,
     ) -> np.ndarray[tuple[int, int], np.dtype[np.complex128]]:
         n_coordinates = len(self.eigenstate_indexes.T)
-        hamiltonian = np.zeros(shape=(n_coordinates, n_coordinates))
+        hamiltonian = np.zeros(
+            shape=(n_coordinates, n_coordinates), dtype=np.complex128
+        )
 
         for index1, [nk0_0, nk1_0, nz1] in enumerate(self.eigenstate_indexes.T):
             for index2, [nk0_1, nk1_1, nz2] in enumerate(self.eigenstate_indexes.T):
-- 
2.43.0


From 2c31ca44fa19544c8a048323f0950f6637e18129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:03 +0000
Subject: [PATCH 40/71] fix: keep the imaginary part of collapse operators

---
 .../dynamics/stochastic_schrodinger/solve.py                    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
index 51d1edb..67220d5 100644
--- a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
+++ b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
@@ -128,7 +128,7 @@ def get_collapse_operators_from_a_matrix(
                     ([data[idx]], ([np.int32(idx[0])], [np.int32(idx[1])])),  # type: ignore always idx[1]
                     shape=data.shape,
                 ).toarray(),
-                dtype=np.float64,
+                dtype=np.complex128,
             ),
         }
         for idx in zip(*np.nonzero(data), strict=True)
-- 
2.43.0


From c94e48a728e5cf06bcf8e022a57997f0da0cb1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:46 +0000
Subject: [PATCH 41/71] fix: declare the resolution of native eigenstates as
 integers

---
 lib/hamiltonian_generator/hamiltonian_generator.pyi | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/hamiltonian_generator/hamiltonian_generator.pyi b/lib/hamiltonian_generator/hamiltonian_generator.pyi
index 2699b71..fce7d09 100644
--- a/lib/hamiltonian_generator/hamiltonian_generator.pyi
+++ b/lib/hamiltonian_generator/hamiltonian_generator.pyi
@@ -24,7 +24,7 @@ def get_hermite_val(x: float, n: int) -> float:
     """Get the value of the nth hermite polynomial at x."""  # noqa: PYI021
 
 def get_eigenstate_wavefunction(  # noqa: PLR0913
-    resolution: tuple[float, float, float],
+    resolution: tuple[int, int, int],
     delta_x0: tuple[float, float],
     delta_x1: tuple[float, float],
     mass: float,
-- 
2.43.0


From a84f67ec697ec84e243474ea8f30a4f07b560516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:55 +0000
Subject: [PATCH 42/71] fix: label the average displacement, drift and ISF
 plots with what they show

---
 surface_potential_analysis/state_vector/plot.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/surface_potential_analysis/state_vector/plot.py b/surface_potential_analysis/state_vector/plot.py
index a915b13..e72cb42 100644
--- a/surface_potential_analysis/state_vector/plot.py
+++ b/surface_potential_analysis/state_vector/plot.py
@@ -1682,9 +1682,11 @@ def plot_average_displacement_1d_x(
     restored_x = _get_restored_x(states, axes[0])
     displacements = get_average_displacements(restored_x)
 
-    return plot_average_value_list_against_time(
+    fig, ax, line = plot_average_value_list_against_time(
         displacements, ax=ax, measure=measure, scale=scale
     )
+    ax.set_ylabel("Squared displacement /$m^2$")  # type: ignore unknown
+    return fig, ax, line
 
 
 def plot_average_drift_1d_x(
@@ -1719,9 +1721,11 @@ def plot_average_drift_1d_x(
     k_points = _get_average_k(states, axes[0])
     drift = get_normalized_average_drift(restored_x, k_points)
 
-    return plot_average_value_list_against_time(
+    fig, ax, line = plot_average_value_list_against_time(
         drift, ax=ax, measure=measure, scale=scale
     )
+    ax.set_ylabel("Normalized drift /Au")  # type: ignore unknown
+    return fig, ax, line
 
 
 def plot_average_isf_1d_x(
@@ -1756,6 +1760,8 @@ def plot_average_isf_1d_x(
     restored_x = _get_restored_x(states, axes[0])
     drift = get_average_isf(restored_x, scattered_k)
 
-    return plot_average_value_list_against_time(
+    fig, ax, line = plot_average_value_list_against_time(
         drift, ax=ax, measure=measure, scale=scale
     )
+    ax.set_ylabel("ISF")  # type: ignore unknown
+    return fig, ax, line
-- 
2.43.0


From b0241114280fc1aed143fb768e66d65e11b1cf8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:13 +0000
Subject: [PATCH 43/71] fix: scale the collapse operators of the qutip solver
 by the root of hbar

---
 .../dynamics/stochastic_schrodinger/solve.py                    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
index 67220d5..7f96da8 100644
--- a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
+++ b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
@@ -297,7 +297,7 @@ def solve_stochastic_schrodinger_equation(  # type: ignore bad overload
     initial_state_qobj = qutip.Qobj(initial_state["data"])
 
     sc_ops = [
-        qutip.Qobj(op["data"].reshape(op["basis"].shape) / hbar).to("CSR")
+        qutip.Qobj(op["data"].reshape(op["basis"].shape) / np.sqrt(hbar)).to("CSR")
         for op in collapse_operators
     ]
     result = qutip.ssesolve(
-- 
2.43.0


From 57e14e92bab6b02004eb84d387061cd7ff3b67f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:13 +0000
Subject: [PATCH 44/71] fix: do not shift the caller's eigenvalues when
 plotting occupations

---
 .../state_vector/eigenvalue_list_plot.py                       | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/surface_potential_analysis/state_vector/eigenvalue_list_plot.py b/surface_potential_analysis/state_vector/eigenvalue_list_plot.py
index 86204d0..ef551dc 100644
--- a/surface_potential_analysis/state_vector/eigenvalue_list_plot.py
+++ b/surface_potential_analysis/state_vector/eigenvalue_list_plot.py
@@ -99,8 +99,7 @@ def plot_eigenstate_occupations(
     """
     fig, ax = get_figure(ax)
 
-    energies = eigenstates["eigenvalue"]
-    energies -= np.min(energies)
+    energies = eigenstates["eigenvalue"] - np.min(eigenstates["eigenvalue"])
     occupation = np.exp(-np.abs(energies) / (temperature * Boltzmann))
     occupation /= np.sum(occupation)
 
-- 
2.43.0


From 98a1d046ec0e2b340156b36cf72c9cc4c2a7ad1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 45/71] fix: plot the positions of the selected points, not
 their indices

---
 surface_potential_analysis/stacked_basis/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/stacked_basis/plot.py b/surface_potential_analysis/stacked_basis/plot.py
index 0443cc5..ff82e34 100644
--- a/surface_potential_analysis/stacked_basis/plot.py
+++ b/surface_potential_analysis/stacked_basis/plot.py
@@ -256,7 +256,7 @@ def plot_fundamental_x_at_index_projected_2d(
     util = BasisUtil(basis)
     idx = idx if isinstance(idx, tuple) else util.get_stacked_index(idx)
     points = (
-        np.array(util.fundamental_stacked_nx_points, dtype=np.float64)
+        np.array(util.fundamental_x_points_stacked, dtype=np.float64)
         .reshape(util.ndim, *util.fundamental_shape)[:, *idx]
         .reshape(util.ndim, -1)
     )
-- 
2.43.0


From 5d3f992e8bdba8bf23ac6e827af419edef7b64a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:55 +0000
Subject: [PATCH 46/71] fix: take the plane of wave vectors along the spatial
 axes when plotting them

---
 surface_potential_analysis/stacked_basis/plot.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/surface_potential_analysis/stacked_basis/plot.py b/surface_potential_analysis/stacked_basis/plot.py
index ff82e34..bfa7fc1 100644
--- a/surface_potential_analysis/stacked_basis/plot.py
+++ b/surface_potential_analysis/stacked_basis/plot.py
@@ -150,9 +150,12 @@ def plot_fundamental_k_in_plane_projected_2d(
     tuple[Figure, Axes, Line2D]
     """
     util = BasisUtil(basis)
-    points = util.fundamental_stacked_k_points.reshape(3, *util.fundamental_shape)[
-        slice_ignoring_axes(idx, axes)
-    ].reshape(3, -1)
+    points = (
+        util.fundamental_stacked_k_points.reshape(basis.ndim, *util.fundamental_shape)[
+            slice_ignoring_axes(idx, (0, *[1 + ax for ax in axes]))
+        ]
+        .reshape(basis.ndim, -1)
+    )
     return plot_k_points_projected_2d(basis, axes, points, ax=ax)
 
 
-- 
2.43.0


From 12d2a87fb1b7cca0c5a27729e383ff38194bbaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:09 +0000
Subject: [PATCH 47/71] fix: position and momentum averages work in more than
 one dimension

---
 surface_potential_analysis/state_vector/plot.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/surface_potential_analysis/state_vector/plot.py b/surface_potential_analysis/state_vector/plot.py
index e72cb42..ca43860 100644
--- a/surface_potential_analysis/state_vector/plot.py
+++ b/surface_potential_analysis/state_vector/plot.py
@@ -992,7 +992,11 @@ def _get_average_x_periodic(
 
     return {
         "basis": periodic_x["basis"],
-        "data": (angle * states["basis"][1].delta_x_stacked[axis] / (2 * np.pi)),
+        "data": (
+            angle
+            * np.linalg.norm(states["basis"][1].delta_x_stacked[axis])
+            / (2 * np.pi)
+        ),
     }
 
 
@@ -1012,7 +1016,9 @@ def _get_restored_x(
     return {
         "basis": periodic_x["basis"],
         "data": (
-            unravelled * states["basis"][1].delta_x_stacked[axis] / (2 * np.pi)
+            unravelled
+            * np.linalg.norm(states["basis"][1].delta_x_stacked[axis])
+            / (2 * np.pi)
         ).ravel(),
     }
 
@@ -1067,7 +1073,8 @@ def _get_x_operator(basis: _SBV0, axis: int) -> SingleBasisOperator[_SBV0]:
     return convert_diagonal_operator_to_basis(
         {
             "basis": TupleBasis(basis_x, basis_x),
-            "data": util.dx_stacked[axis] * util.stacked_nx_points[axis],
+            "data": np.linalg.norm(util.dx_stacked[axis])
+            * util.stacked_nx_points[axis],
         },
         TupleBasis(basis, basis),
     )
@@ -1283,7 +1290,8 @@ def _get_k_operator(basis: _SBV0, axis: int) -> SingleBasisOperator[_SBV0]:
     return convert_diagonal_operator_to_basis(
         {
             "basis": TupleBasis(basis_k, basis_k),
-            "data": util.dk_stacked[axis] * util.stacked_nk_points[axis],
+            "data": np.linalg.norm(util.dk_stacked[axis])
+            * util.stacked_nk_points[axis],
         },
         TupleBasis(basis, basis),
     )
-- 
2.43.0


From cb0e8cb97631fe895aca5df27b8f15eacd8b1278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:45 +0000
Subject: [PATCH 48/71] fix: periodic noise operators have the size of the
 basis they are tagged with

---
 surface_potential_analysis/kernel/solve/_fft.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/kernel/solve/_fft.py b/surface_potential_analysis/kernel/solve/_fft.py
index ca40946..102b752 100644
--- a/surface_potential_analysis/kernel/solve/_fft.py
+++ b/surface_potential_analysis/kernel/solve/_fft.py
@@ -82,7 +82,7 @@ def _get_operators_for_isotropic_noise(
     operators = np.exp(1j * i_points * k * nk_points) / np.sqrt(basis.n)
     return {
         "basis": TupleBasis(
-            FundamentalBasis(fundamental_n),
+            FundamentalBasis(n),
             TupleBasis(basis, basis),
         ),
         "data": operators.astype(np.complex128).ravel(),
@@ -271,7 +271,7 @@ def _get_operators_for_isotropic_stacked_noise(
     k = tuple(2 * np.pi / n for n in fundamental_shape)
     shape_basis = fundamental_stacked_basis_from_shape(fundamental_shape)
 
-    nk_points = BasisUtil(basis).fundamental_stacked_nk_points
+    nk_points = BasisUtil(basis).stacked_nk_points
     i_points = BasisUtil(shape_basis).stacked_nk_points
 
     operators = np.array(
-- 
2.43.0


From dbd1c54bffeaa966c80f52a0440b8e9bcc970c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:51 +0000
Subject: [PATCH 49/71] fix: displacements of a single axis are wrapped
 scalars, one per pair of points

---
 surface_potential_analysis/operator/build.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/surface_potential_analysis/operator/build.py b/surface_potential_analysis/operator/build.py
index e959de3..a73a422 100644
--- a/surface_potential_analysis/operator/build.py
+++ b/surface_potential_analysis/operator/build.py
@@ -62,7 +62,8 @@ def get_displacements_x(
     ValueList[FundamentalPositionBasis[Any, Any]]
     """
     basis_x = basis_as_fundamental_position_basis(basis)
-    distances = BasisUtil(basis_x).x_points - origin
+    util = BasisUtil(basis_x)
+    distances = np.linalg.norm(util.dx) * util.nx_points - origin
     max_distance = np.linalg.norm(basis_x.delta_x) / 2
     data = _wrap_displacements(distances, max_distance)
     return {"basis": basis_x, "data": data.astype(np.complex128)}
@@ -166,11 +167,15 @@ def get_displacements_matrix_x(
     ValueList[FundamentalPositionBasis[Any, Any]]
     """
     basis_x = basis_as_fundamental_position_basis(basis)
-    x_points = BasisUtil(basis_x).x_points
+    util = BasisUtil(basis_x)
+    x_points = np.linalg.norm(util.dx) * util.nx_points
     distances = x_points[:, np.newaxis] - x_points[np.newaxis, :] - origin
     max_distance = np.linalg.norm(basis_x.delta_x) / 2
-    data = np.remainder((distances + basis_x.delta_x), max_distance) - max_distance
-    return {"basis": TupleBasis(basis_x, basis_x), "data": data.astype(np.complex128)}
+    data = _wrap_displacements(distances, max_distance)
+    return {
+        "basis": TupleBasis(basis_x, basis_x),
+        "data": data.astype(np.complex128).ravel(),
+    }
 
 
 def _get_displacements_matrix_x_along_axis(
-- 
2.43.0


From d9f54520ac98f41a61189370e72bb16a3ab73933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:34 +0000
Subject: [PATCH 50/71] fix: flatten the data of operators and operator
 products, as their records declare

---
 surface_potential_analysis/operator/build.py      | 5 ++++-
 surface_potential_analysis/operator/operations.py | 2 +-
 surface_potential_analysis/operator/operator.py   | 9 ++++++---
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/surface_potential_analysis/operator/build.py b/surface_potential_analysis/operator/build.py
index a73a422..ddb77bd 100644
--- a/surface_potential_analysis/operator/build.py
+++ b/surface_potential_analysis/operator/build.py
@@ -192,7 +192,10 @@ def _get_displacements_matrix_x_along_axis(
     delta_x = np.linalg.norm(basis_x.delta_x_stacked[axis])
     max_distance = delta_x / 2
     data = _wrap_displacements(distances, max_distance)
-    return {"basis": TupleBasis(basis_x, basis_x), "data": data.astype(np.complex128)}
+    return {
+        "basis": TupleBasis(basis_x, basis_x),
+        "data": data.astype(np.complex128).ravel(),
+    }
 
 
 def get_displacements_matrix_x_stacked(
diff --git a/surface_potential_analysis/operator/operations.py b/surface_potential_analysis/operator/operations.py
index bf16f97..9b4dbcd 100644
--- a/surface_potential_analysis/operator/operations.py
+++ b/surface_potential_analysis/operator/operations.py
@@ -334,7 +334,7 @@ def apply_operator_to_states(
     norm = np.sqrt(np.sum(np.abs(np.square(data)), axis=1))
     return {
         "basis": TupleBasis(converted["basis"][0], lhs["basis"][0]),
-        "data": data / norm.reshape(norm.size, 1),
+        "data": (data / norm.reshape(norm.size, 1)).ravel(),
         "eigenvalue": norm,
     }
 
diff --git a/surface_potential_analysis/operator/operator.py b/surface_potential_analysis/operator/operator.py
index dcc8019..c89ac81 100644
--- a/surface_potential_analysis/operator/operator.py
+++ b/surface_potential_analysis/operator/operator.py
@@ -78,7 +78,7 @@ def as_operator(operator: DiagonalOperator[_B0, _B1]) -> Operator[_B0, _B1]:
     -------
     Operator[_B0_co, _B1_co]
     """
-    return {"basis": operator["basis"], "data": np.diag(operator["data"])}
+    return {"basis": operator["basis"], "data": np.diag(operator["data"]).ravel()}
 
 
 def as_diagonal_operator(operator: Operator[_B0, _B1]) -> DiagonalOperator[_B0, _B1]:
@@ -234,7 +234,7 @@ def apply_function_to_operator(
         "k,ak,kb->ab", eigenvalues, res.eigenvectors, np.linalg.inv(res.eigenvectors)
     )
 
-    return {"basis": operator["basis"], "data": data}
+    return {"basis": operator["basis"], "data": data.ravel()}
 
 
 def matmul_operator(
@@ -245,7 +245,10 @@ def matmul_operator(
         rhs["data"].reshape(rhs["basis"].shape),
         axes=(1, 0),
     )
-    return {"basis": TupleBasis(lhs["basis"][0], rhs["basis"][1]), "data": data}
+    return {
+        "basis": TupleBasis(lhs["basis"][0], rhs["basis"][1]),
+        "data": data.ravel(),
+    }
 
 
 def add_operator(a: Operator[_B0, _B1], b: Operator[_B0, _B1]) -> Operator[_B0, _B1]:
-- 
2.43.0


From f15d90ffb525a5667adecc658cb40d85c766ace8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:45 +0000
Subject: [PATCH 51/71] fix: flatten the data of truncated and linear noise
 operators

---
 surface_potential_analysis/kernel/build.py         | 4 ++--
 surface_potential_analysis/kernel/solve/_taylor.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/surface_potential_analysis/kernel/build.py b/surface_potential_analysis/kernel/build.py
index f8cd3eb..0b8aff2 100644
--- a/surface_potential_analysis/kernel/build.py
+++ b/surface_potential_analysis/kernel/build.py
@@ -293,7 +293,7 @@ def truncate_diagonal_noise_operator_list(
     data = operators["data"].reshape(operators["basis"][0].n, -1)[args, :]
     return {
         "basis": TupleBasis(FundamentalBasis(data.shape[0]), operators["basis"][1]),
-        "data": data,
+        "data": data.ravel(),
         "eigenvalue": operators["eigenvalue"][args],
     }
 
@@ -318,7 +318,7 @@ def truncate_noise_operator_list(
     data = operators["data"].reshape(operators["basis"][0].n, -1)[args, :]
     return {
         "basis": TupleBasis(FundamentalBasis(data.shape[0]), operators["basis"][1]),
-        "data": data,
+        "data": data.ravel(),
         "eigenvalue": operators["eigenvalue"][args],
     }
 
diff --git a/surface_potential_analysis/kernel/solve/_taylor.py b/surface_potential_analysis/kernel/solve/_taylor.py
index 333dd4a..3987584 100644
--- a/surface_potential_analysis/kernel/solve/_taylor.py
+++ b/surface_potential_analysis/kernel/solve/_taylor.py
@@ -133,7 +133,7 @@ def _get_linear_operators_for_noise(
     data = np.array([displacements**n for n in range(n_terms)], dtype=np.complex128)
     return {
         "basis": TupleBasis(FundamentalBasis(n_terms), TupleBasis(basis_x, basis_x)),
-        "data": data,
+        "data": data.ravel(),
     }
 
 
-- 
2.43.0


From 46af84cead95fa6870573196725c14068fb437c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:45 +0000
Subject: [PATCH 52/71] fix: flatten the data of coherent coordinates

---
 surface_potential_analysis/state_vector/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/state_vector/plot.py b/surface_potential_analysis/state_vector/plot.py
index ca43860..db87a19 100644
--- a/surface_potential_analysis/state_vector/plot.py
+++ b/surface_potential_analysis/state_vector/plot.py
@@ -1197,7 +1197,7 @@ def get_coherent_coordinates(
             FundamentalBasis[Literal[3]](3),
             states["basis"][0],
         ),
-        "data": np.array([x0["data"], k0["data"], sigma_0["data"]]),
+        "data": np.array([x0["data"], k0["data"], sigma_0["data"]]).ravel(),
     }
 
 
-- 
2.43.0


From a2801e41ac761a88242853b674019a252222d81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:21 +0000
Subject: [PATCH 53/71] fix: flatten the data and eigenvalues of converted
 wavepackets

---
 surface_potential_analysis/wavepacket/conversion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/wavepacket/conversion.py b/surface_potential_analysis/wavepacket/conversion.py
index 55bfa59..25cbdae 100644
--- a/surface_potential_analysis/wavepacket/conversion.py
+++ b/surface_potential_analysis/wavepacket/conversion.py
@@ -195,7 +195,7 @@ def convert_wavepacket_with_eigenvalues_to_basis(
     return {
         "basis": TupleBasis(TupleBasis(wavepacket["basis"][0][0], list_basis), basis),
         "data": vectors.reshape(-1),
-        "eigenvalue": eigenvalues,
+        "eigenvalue": eigenvalues.reshape(-1),
     }
 
 
@@ -303,5 +303,5 @@ def convert_wavepacket_to_shape(
         ),
         "data": wavepacket["data"]
         .reshape(*old_shape, -1)[*slices, :]
-        .reshape(np.prod(shape), -1),
+        .reshape(-1),
     }
-- 
2.43.0


From defcbaeb3db4e69f46a6423f50212534a6e066fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:21 +0000
Subject: [PATCH 54/71] fix: flatten the data of tunnelling matrices and the
 states they evolve

---
 .../dynamics/incoherent_propagation/eigenstates.py | 14 +++++++++-----
 .../dynamics/incoherent_propagation/isf.py         |  4 +++-
 .../incoherent_propagation/tunnelling_matrix.py    |  2 +-
 3 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/surface_potential_analysis/dynamics/incoherent_propagation/eigenstates.py b/surface_potential_analysis/dynamics/incoherent_propagation/eigenstates.py
index bf8af0d..4f4f296 100644
--- a/surface_potential_analysis/dynamics/incoherent_propagation/eigenstates.py
+++ b/surface_potential_analysis/dynamics/incoherent_propagation/eigenstates.py
@@ -54,7 +54,7 @@ def calculate_tunnelling_eigenstates(
     return {
         "basis": TupleBasis(FundamentalBasis(eigenvalues.size), matrix["basis"][0]),  # type: ignore lib
         "eigenvalue": eigenvalues - np.max(eigenvalues),  # type: ignore lib
-        "data": vectors.T,  # type: ignore lib
+        "data": vectors.T.ravel(),  # type: ignore lib
     }
 
 
@@ -82,7 +82,8 @@ def get_operator_state_vector_decomposition(
     # linalg.solve(a, b) = x where np.dot(a, x) == b, which is the sum
     # of the product over the last axis of x, so a[i] x[:, i] = b[:]
     # ie solved is the decomposition of b into the eigenvectors
-    return scipy.linalg.solve(eigenstates["data"].T, density_matrix["data"])  # type: ignore[no-any-return]
+    vectors = eigenstates["data"].reshape(eigenstates["basis"].shape)
+    return scipy.linalg.solve(vectors.T, density_matrix["data"])  # type: ignore[no-any-return]
 
 
 def get_equilibrium_state(
@@ -110,7 +111,8 @@ def get_equilibrium_state(
     state_idx = np.argmax(eigenstates["eigenvalue"])
     # eigenstates["data"][state_idx] is not necessarily normalized,
     # and could contain negative or imaginary 'probabilities'
-    vector = coefficients[state_idx] * eigenstates["data"][state_idx]
+    vectors = eigenstates["data"].reshape(eigenstates["basis"].shape)
+    vector = coefficients[state_idx] * vectors[state_idx]
     return {
         "basis": TupleBasis(eigenstates["basis"][1], eigenstates["basis"][1]),
         "data": vector,
@@ -163,13 +165,15 @@ def get_tunnelling_simulation_state(
     constants = coefficients[np.newaxis, :] * np.exp(
         eigenstates["eigenvalue"][np.newaxis, :] * times[:, np.newaxis]
     )
-    vectors = np.tensordot(constants, eigenstates["data"], axes=(1, 0))
+    vectors = np.tensordot(
+        constants, eigenstates["data"].reshape(eigenstates["basis"].shape), axes=(1, 0)
+    )
     return {
         "basis": TupleBasis(
             ExplicitTimeBasis(times),
             TupleBasis(eigenstates["basis"][1], eigenstates["basis"][1]),
         ),
-        "data": vectors,
+        "data": vectors.ravel(),
     }
 
 
diff --git a/surface_potential_analysis/dynamics/incoherent_propagation/isf.py b/surface_potential_analysis/dynamics/incoherent_propagation/isf.py
index 4b7c61c..d468b2f 100644
--- a/surface_potential_analysis/dynamics/incoherent_propagation/isf.py
+++ b/surface_potential_analysis/dynamics/incoherent_propagation/isf.py
@@ -163,7 +163,9 @@ def calculate_equilibrium_initial_state_isf(
         )
         final_state = get_tunnelling_simulation_state(eigenstates, initial_state, times)
         final_probabilities = density_matrix_list_as_probabilities(final_state)
-        vectors[band] = final_probabilities["data"]
+        vectors[band] = final_probabilities["data"].reshape(
+            final_probabilities["basis"].shape
+        )
     probability_per_band: ProbabilityVectorList[
         TupleBasis[FundamentalBasis[int], ExplicitTimeBasis[_L0Inv]], _B0Inv
     ] = {
diff --git a/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py b/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
index 048edc1..8ffd057 100644
--- a/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
+++ b/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
@@ -333,7 +333,7 @@ def get_tunnelling_m_matrix(
     data = matrix["data"].reshape(matrix["basis"].shape).copy()
     np.fill_diagonal(data, 0)
     array = data.T - np.diag(np.sum(data, axis=1))
-    return {"basis": matrix["basis"], "data": array}
+    return {"basis": matrix["basis"], "data": array.ravel()}
 
 
 def get_initial_pure_density_matrix_for_basis(
-- 
2.43.0


From b9822ae9dbbd97477dd1d91328ef4b99fd7328cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:40 +0000
Subject: [PATCH 55/71] fix: localisation by the position operator iterates
 over states rather than single amplitudes

---
 .../wavepacket/get_eigenstate.py                  |  2 +-
 .../wavepacket/localization/_operator.py          | 15 +++++++++------
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/surface_potential_analysis/wavepacket/get_eigenstate.py b/surface_potential_analysis/wavepacket/get_eigenstate.py
index 0ff9638..fbe22de 100644
--- a/surface_potential_analysis/wavepacket/get_eigenstate.py
+++ b/surface_potential_analysis/wavepacket/get_eigenstate.py
@@ -235,7 +235,7 @@ def get_all_eigenstates(
             "eigenvalue": e,
         }
         for (v, e, *offset) in zip(
-            converted["data"],
+            converted["data"].reshape(converted["basis"].shape),
             wavepacket["eigenvalue"],
             *util.stacked_nk_points,
             strict=True,
diff --git a/surface_potential_analysis/wavepacket/localization/_operator.py b/surface_potential_analysis/wavepacket/localization/_operator.py
index b5bac7a..d3d6986 100644
--- a/surface_potential_analysis/wavepacket/localization/_operator.py
+++ b/surface_potential_analysis/wavepacket/localization/_operator.py
@@ -72,7 +72,7 @@ def _get_position_operator(basis: _SBV0) -> SingleBasisOperator[_SBV0]:
     basis_position = stacked_basis_as_fundamental_position_basis(basis)
     operator: SingleBasisOperator[Any] = {
         "basis": TupleBasis(basis_position, basis_position),
-        "data": np.diag(locations),
+        "data": np.diag(locations).ravel(),
     }
     return convert_operator_to_basis(operator, TupleBasis(basis, basis))
 
@@ -92,7 +92,7 @@ def _get_operator_between_states(
             )
 
     basis = FundamentalBasis(n_states)
-    return {"data": array, "basis": TupleBasis(basis, basis)}
+    return {"data": array.ravel(), "basis": TupleBasis(basis, basis)}
 
 
 def _localize_operator(
@@ -109,9 +109,12 @@ def _localize_operator(
         {
             "basis": wavepacket["basis"],
             "eigenvalue": wavepacket["eigenvalue"],
-            "data": wavepacket["data"] * vector[:, np.newaxis],
+            "data": (
+                wavepacket["data"].reshape(wavepacket["basis"].shape)
+                * vector[:, np.newaxis]
+            ).ravel(),
         }
-        for vector in eigenstates["data"]
+        for vector in eigenstates["data"].reshape(eigenstates["basis"].shape)
     ]
 
 
@@ -172,7 +175,7 @@ def localize_position_operator_many_band(
             "basis": basis,
             "data": np.tensordot(vector, state_vectors, axes=(0, 0)),
         }
-        for vector in eigenstates["data"]
+        for vector in eigenstates["data"].reshape(eigenstates["basis"].shape)
     ]
 
 
@@ -206,5 +209,5 @@ def localize_position_operator_many_band_individual(
             "basis": states[0]["basis"],
             "data": np.tensordot(vector, state_vectors, axes=(0, 0)),
         }
-        for vector in eigenstates["data"]
+        for vector in eigenstates["data"].reshape(eigenstates["basis"].shape)
     ]
-- 
2.43.0


From eea4b285d5c593a61def2745b7881e520f5be192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:35 +0000
Subject: [PATCH 56/71] fix: flatten the states of the analytic schrodinger
 solvers

---
 .../dynamics/schrodinger/solve.py                      | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/dynamics/schrodinger/solve.py b/surface_potential_analysis/dynamics/schrodinger/solve.py
index 77e5f58..15695c3 100644
--- a/surface_potential_analysis/dynamics/schrodinger/solve.py
+++ b/surface_potential_analysis/dynamics/schrodinger/solve.py
@@ -121,7 +121,10 @@ def solve_schrodinger_equation_decomposition(
     vectors = np.tensordot(
         constants, eigenstates["data"].reshape(eigenstates["basis"].shape), axes=(1, 0)
     )
-    return {"basis": TupleBasis(times, eigenstates["basis"][1]), "data": vectors}
+    return {
+        "basis": TupleBasis(times, eigenstates["basis"][1]),
+        "data": vectors.ravel(),
+    }
 
 
 def solve_schrodinger_equation_diagonal(
@@ -149,7 +152,10 @@ def solve_schrodinger_equation_diagonal(
     data = converted_state["data"][np.newaxis, :] * np.exp(
         -1j * (hamiltonian["data"][np.newaxis, :]) * times.times[:, np.newaxis] / hbar
     )
-    return {"basis": TupleBasis(times, hamiltonian["basis"][0]), "data": data}
+    return {
+        "basis": TupleBasis(times, hamiltonian["basis"][0]),
+        "data": data.ravel(),
+    }
 
 
 def solve_schrodinger_equation(
-- 
2.43.0


From aeb61dec29bff8993b6296005335dcc5a6e88739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:35 +0000
Subject: [PATCH 57/71] fix: flatten the states of the harmonic oscillator
 basis

---
 surface_potential_analysis/stacked_basis/sho_basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/stacked_basis/sho_basis.py b/surface_potential_analysis/stacked_basis/sho_basis.py
index 4c6d36a..369f506 100644
--- a/surface_potential_analysis/stacked_basis/sho_basis.py
+++ b/surface_potential_analysis/stacked_basis/sho_basis.py
@@ -179,5 +179,5 @@ def infinate_sho_basis_3d_from_config(
     util = BasisUtil(parent)
     vectors *= np.sqrt(np.linalg.norm(util.fundamental_dx))
     return ExplicitBasisWithLength(
-        {"basis": TupleBasis(FundamentalBasis(n), parent), "data": vectors}
+        {"basis": TupleBasis(FundamentalBasis(n), parent), "data": vectors.ravel()}
     )
-- 
2.43.0


From c6284348c76a27ab76c4188e46f24e7c55ffedb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:36 +0000
Subject: [PATCH 58/71] fix: tight binding localisation by maximum points
 multiplies each state by its phase

---
 .../wavepacket/localization/_tight_binding.py        | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/surface_potential_analysis/wavepacket/localization/_tight_binding.py b/surface_potential_analysis/wavepacket/localization/_tight_binding.py
index c8ea059..ae74c86 100644
--- a/surface_potential_analysis/wavepacket/localization/_tight_binding.py
+++ b/surface_potential_analysis/wavepacket/localization/_tight_binding.py
@@ -291,9 +291,11 @@ def localize_tightly_bound_wavepacket_two_point_max(
     # !         )
     # !     )
     # ! )
-    fixed_eigenvectors = wavepacket["data"] * phases[:, np.newaxis]
+    fixed_eigenvectors = (
+        wavepacket["data"].reshape(wavepacket["basis"].shape) * phases[:, np.newaxis]
+    )
 
-    return {"basis": wavepacket["basis"], "data": fixed_eigenvectors}
+    return {"basis": wavepacket["basis"], "data": fixed_eigenvectors.ravel()}
 
 
 @timed
@@ -330,6 +332,8 @@ def localize_tightly_bound_wavepacket_max_point(
     global_phases = _get_global_phases(wavepacket, max_idx)
 
     phases = np.exp(-1j * (bloch_phases + global_phases - angle))
-    fixed_eigenvectors = wavepacket["data"] * phases[:, :, np.newaxis]
+    fixed_eigenvectors = (
+        wavepacket["data"].reshape(wavepacket["basis"].shape) * phases[:, np.newaxis]
+    )
 
-    return {"basis": wavepacket["basis"], "data": fixed_eigenvectors}
+    return {"basis": wavepacket["basis"], "data": fixed_eigenvectors.ravel()}
-- 
2.43.0


From 25f33274432052053e4a09c55e7a0053bf538b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:37 +0000
Subject: [PATCH 59/71] fix: flatten the data of periodic operators of real
 isotropic noise

---
 surface_potential_analysis/kernel/solve/_fft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/kernel/solve/_fft.py b/surface_potential_analysis/kernel/solve/_fft.py
index 102b752..2aa5833 100644
--- a/surface_potential_analysis/kernel/solve/_fft.py
+++ b/surface_potential_analysis/kernel/solve/_fft.py
@@ -192,7 +192,7 @@ def get_periodic_operators_for_real_isotropic_noise(
     # ! data[end:] = np.sqrt(2) * np.imag(np.conj(data[end:]))
     return {
         "basis": TupleBasis(FundamentalBasis(data.shape[0]), TupleBasis(basis, basis)),
-        "data": data,
+        "data": data.ravel(),
     }
 
 
-- 
2.43.0


From 61b2ff47c702345bb8e8e6f47f475f9118e1cfe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:53 +0000
Subject: [PATCH 60/71] fix: keep probabilities real when averaging the isf
 over initial bands

---
 .../dynamics/incoherent_propagation/isf.py                    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/dynamics/incoherent_propagation/isf.py b/surface_potential_analysis/dynamics/incoherent_propagation/isf.py
index d468b2f..3adbe5c 100644
--- a/surface_potential_analysis/dynamics/incoherent_propagation/isf.py
+++ b/surface_potential_analysis/dynamics/incoherent_propagation/isf.py
@@ -155,7 +155,7 @@ def calculate_equilibrium_initial_state_isf(
 
     vectors = np.zeros(
         (matrix["basis"][0].shape[2], times.size, matrix["basis"][0].n),
-        dtype=np.complex128,
+        dtype=np.float64,
     )
     for band in range(matrix["basis"][0].shape[2]):
         initial_state = get_initial_pure_density_matrix_for_basis(
@@ -182,7 +182,7 @@ def calculate_equilibrium_initial_state_isf(
     occupation_probabilities = sum_probability(
         density_matrix_as_probability(equilibrium), (0, 1)
     )
-    vector = np.zeros(matrix["basis"][0].shape, dtype=np.complex128)
+    vector = np.zeros(matrix["basis"][0].shape, dtype=np.float64)
     vector[0, 0, :] = occupation_probabilities["data"]
     initial: ProbabilityVector[_B0Inv] = {
         "basis": matrix["basis"][0],
-- 
2.43.0


From 52a633a34eccaa239c83756937b2c46e8e524a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:54 +0000
Subject: [PATCH 61/71] fix: result of calculate_equilibrium_initial_state_isf
 in the time basis

---
 .../dynamics/incoherent_propagation/isf.py                  | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/incoherent_propagation/isf.py b/surface_potential_analysis/dynamics/incoherent_propagation/isf.py
index 3adbe5c..9305085 100644
--- a/surface_potential_analysis/dynamics/incoherent_propagation/isf.py
+++ b/surface_potential_analysis/dynamics/incoherent_propagation/isf.py
@@ -193,7 +193,11 @@ def calculate_equilibrium_initial_state_isf(
         weights=np.abs(occupation_probabilities["data"]),
         axis=(0,),
     )
-    return calculate_isf_approximate_locations(initial, average_probability, dk)
+    isf = calculate_isf_approximate_locations(initial, average_probability, dk)
+    return {
+        "basis": TupleBasis(isf["basis"][0][0], isf["basis"][0][0]),
+        "data": isf["data"],
+    }
 
 
 @dataclass
-- 
2.43.0


From 084c12ad0cae9541930d17785f2e0101e05e1425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:38 +0000
Subject: [PATCH 62/71] fix: draw the diagonal of an operator without
 transforming it as a vector

---
 surface_potential_analysis/operator/plot.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/operator/plot.py b/surface_potential_analysis/operator/plot.py
index d1a39c6..078ad21 100644
--- a/surface_potential_analysis/operator/plot.py
+++ b/surface_potential_analysis/operator/plot.py
@@ -6,6 +6,7 @@ import numpy as np
 from matplotlib.axes import Axes
 from matplotlib.figure import Figure
 
+from surface_potential_analysis.basis.basis import FundamentalBasis
 from surface_potential_analysis.basis.basis_like import BasisLike
 from surface_potential_analysis.basis.stacked_basis import (
     StackedBasisWithVolumeLike,
@@ -249,7 +250,7 @@ def plot_diagonal_operator_along_diagonal(
     tuple[Figure, Axes, Line2D]
     """
     fig, ax, line = plot_data_1d_n(
-        TupleBasis(operator["basis"][0]),
+        TupleBasis(FundamentalBasis(operator["basis"][0].n)),
         operator["data"],
         ax=ax,
         measure=measure,
@@ -285,7 +286,7 @@ def animate_diagonal_operator_list_along_diagonal(
     tuple[Figure, Axes, Line2D]
     """
     return animate_data_through_list_1d_n(
-        TupleBasis(operator["basis"][1][0]),
+        TupleBasis(FundamentalBasis(operator["basis"][1][0].n)),
         operator["data"].reshape(operator["basis"][0].n, -1),
         ax=ax,
         scale=scale,
-- 
2.43.0


From 6ec1276baee4c8768ad1d372ed4fcd16b75355f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:58 +0000
Subject: [PATCH 63/71] fix: coordinates in axes of a basis with fewer states
 than points

---
 surface_potential_analysis/stacked_basis/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/stacked_basis/util.py b/surface_potential_analysis/stacked_basis/util.py
index 510a047..92ed786 100644
--- a/surface_potential_analysis/stacked_basis/util.py
+++ b/surface_potential_analysis/stacked_basis/util.py
@@ -125,7 +125,7 @@ def get_k_coordinates_in_axes(
     points = get_fundamental_stacked_k_points_projected_along_axes(basis, axes)
     slice_ = slice_ignoring_axes(idx, axes)
     return np.transpose(
-        points.reshape(-1, *basis.shape)[:, *slice_],
+        points.reshape(-1, *basis.fundamental_shape)[:, *slice_],
         (0, *(1 + np.array(get_position_in_sorted(axes)))),
     )  # type: ignore[no-any-return]
 
@@ -203,7 +203,7 @@ def get_x_coordinates_in_axes(
     points = get_fundamental_stacked_x_points_projected_along_axes(basis, axes)
     slice_ = slice_ignoring_axes(idx, axes)
     return np.transpose(
-        points.reshape(-1, *basis.shape)[:, *slice_],
+        points.reshape(-1, *basis.fundamental_shape)[:, *slice_],
         (0, *(1 + np.array(get_position_in_sorted(axes)))),
     )  # type: ignore[no-any-return]
 
-- 
2.43.0


From 871a252470fa3acecb4c0f2dcc320e36391bbb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:58 +0000
Subject: [PATCH 64/71] fix: fundamental times of an evenly spaced basis have
 spacing fundamental_dt

---
 surface_potential_analysis/basis/time_basis_like.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/basis/time_basis_like.py b/surface_potential_analysis/basis/time_basis_like.py
index 8d59d55..2ec3f3f 100644
--- a/surface_potential_analysis/basis/time_basis_like.py
+++ b/surface_potential_analysis/basis/time_basis_like.py
@@ -51,7 +51,9 @@ class EvenlySpacedTimeBasis(
 
     @property
     def fundamental_times(self) -> np.ndarray[tuple[Any], np.dtype[np.float64]]:
-        return np.linspace(0, self._delta_t, self.fundamental_n)  # type: ignore[no-any-return]
+        return np.linspace(  # type: ignore[no-any-return]
+            0, self._delta_t, self.fundamental_n, endpoint=False
+        )
 
     @property
     def delta_t(self) -> float:
-- 
2.43.0


From 3babe5eb24c34cfe04f4bf13ab44eff8e48b475f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:58 +0000
Subject: [PATCH 65/71] fix: cumulative k distances add the length of each step

---
 surface_potential_analysis/stacked_basis/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/stacked_basis/util.py b/surface_potential_analysis/stacked_basis/util.py
index 92ed786..51182c8 100644
--- a/surface_potential_analysis/stacked_basis/util.py
+++ b/surface_potential_analysis/stacked_basis/util.py
@@ -446,7 +446,7 @@ def calculate_cumulative_k_distances_along_path(
     )
     util = BasisUtil(basis)
     x_distances = np.linalg.norm(  # TODO: test
-        np.tensordot(distances, util.dk_stacked, axes=(0, 0)),
+        np.tensordot(util.dk_stacked, distances, axes=(0, 0)),
         axis=0,
     )
     cum_distances = np.cumsum(x_distances)
-- 
2.43.0


From 89b5bbd37a15e4030b7bc9b9a465d16cee655ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:58 +0000
Subject: [PATCH 66/71] fix: tight binding state takes the points of the unit
 cell

---
 surface_potential_analysis/wavepacket/get_eigenstate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/wavepacket/get_eigenstate.py b/surface_potential_analysis/wavepacket/get_eigenstate.py
index fbe22de..e6f642e 100644
--- a/surface_potential_analysis/wavepacket/get_eigenstate.py
+++ b/surface_potential_analysis/wavepacket/get_eigenstate.py
@@ -318,7 +318,7 @@ def get_tight_binding_state(
     # Under the tight binding approximation all state vectors are equal.
     # The corresponding localized state is just the state at some index
     # truncated to a single unit cell
-    unit_cell_util = BasisUtil(wavepacket["basis"])
+    unit_cell_util = BasisUtil(wavepacket["basis"][1])
     relevant_idx = wrap_index_around_origin(
         wavepacket["basis"][1],
         unit_cell_util.fundamental_stacked_nx_points,
-- 
2.43.0


From 49993ffd230fd3aae9b0ec3aac0d9e6fd3f94573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:44 +0000
Subject: [PATCH 67/71] fix: as_wavepacket_list keeps the first wavepacket of
 an iterator

---
 surface_potential_analysis/wavepacket/wavepacket.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/wavepacket/wavepacket.py b/surface_potential_analysis/wavepacket/wavepacket.py
index 3d16ab6..45371cb 100644
--- a/surface_potential_analysis/wavepacket/wavepacket.py
+++ b/surface_potential_analysis/wavepacket/wavepacket.py
@@ -461,8 +461,9 @@ def as_wavepacket_list(
     -------
     WavepacketList[FundamentalBasis[int], _SB0, _SB1]
     """
-    wavepacket_0 = next(iter(wavepackets))
-    vectors = np.array([w["data"] for w in wavepackets])
+    wavepacket_list = list(wavepackets)
+    wavepacket_0 = wavepacket_list[0]
+    vectors = np.array([w["data"] for w in wavepacket_list])
     return {
         "basis": TupleBasis(
             TupleBasis(FundamentalBasis(len(vectors)), wavepacket_0["basis"][0]),
-- 
2.43.0


From cc4e1800b53e82a747e268dd367fd626accc8620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:44 +0000
Subject: [PATCH 68/71] fix: pad_ft_points reads the sizes and axes of an
 iterator once

---
 surface_potential_analysis/util/interpolation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/util/interpolation.py b/surface_potential_analysis/util/interpolation.py
index a30da24..59322ee 100644
--- a/surface_potential_analysis/util/interpolation.py
+++ b/surface_potential_analysis/util/interpolation.py
@@ -42,7 +42,8 @@ def pad_ft_points(
         The padded array
     """
     shape_arr = np.array(array.shape, dtype=np.int_)
-    axes_arr = np.asarray(axes)
+    s = tuple(s)
+    axes_arr = np.array(tuple(axes), dtype=np.int_)
 
     padded_shape = shape_arr.copy()
     padded_shape[axes_arr] = s
-- 
2.43.0


From ea87cc266c5733376b08b107775d802aa2d2413d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:11 +0000
Subject: [PATCH 69/71] fix: shift the overlap along each axis of a stacked
 basis

---
 surface_potential_analysis/overlap/calculation.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/surface_potential_analysis/overlap/calculation.py b/surface_potential_analysis/overlap/calculation.py
index 260f90e..18f5ef6 100644
--- a/surface_potential_analysis/overlap/calculation.py
+++ b/surface_potential_analysis/overlap/calculation.py
@@ -10,7 +10,6 @@ from surface_potential_analysis.basis.stacked_basis import (
     TupleBasis,
     TupleBasisLike,
 )
-from surface_potential_analysis.basis.util import BasisUtil
 from surface_potential_analysis.stacked_basis.conversion import (
     stacked_basis_as_fundamental_position_basis,
 )
@@ -101,12 +100,16 @@ def calculate_state_vector_list_overlap(
     Overlap[TupleBasisLike[*tuple[FundamentalPositionBasis[Any, Any], ...]], _B1, _B1].
     """
     stacked = states["data"].reshape(states["basis"].shape)
-    shift = (
-        BasisUtil(states["basis"][1]).get_flat_index(shift, mode="wrap")
+    # A shift along each axis must wrap around that axis
+    stacked_shifted = (
+        np.roll(
+            stacked.reshape(-1, *states["basis"][1].shape),
+            shift,
+            axis=tuple(range(1, 1 + len(shift))),
+        ).reshape(stacked.shape)
         if isinstance(shift, tuple)
-        else shift
+        else np.roll(stacked, shift, axis=(1))
     )
-    stacked_shifted = np.roll(stacked, shift, axis=(1))
     # stacked = i, j where i indexes the state and j indexes the position
     data = np.conj(stacked)[np.newaxis, :, :] * (stacked_shifted[:, np.newaxis, :])
     return {
-- 
2.43.0


From e4de58b604b6035d1762b632b1664fbbab24c140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:11 +0000
Subject: [PATCH 70/71] fix: interpolate a state vector along the axes asked
 for

---
 surface_potential_analysis/state_vector/conversion.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/surface_potential_analysis/state_vector/conversion.py b/surface_potential_analysis/state_vector/conversion.py
index d2965e6..8dc45d1 100644
--- a/surface_potential_analysis/state_vector/conversion.py
+++ b/surface_potential_analysis/state_vector/conversion.py
@@ -214,13 +214,11 @@ def interpolate_state_vector_momentum(
     final_basis = TupleBasis[*tuple[BasisWithLengthLike[Any, Any, Any], ...]](
         *tuple(
             TransformedPositionBasis(ax.delta_x, ax.n, shape[idx])
-            if (
-                idx := next((i for i, jax in enumerate(axes) if jax == iax), None)
-                is not None
-            )
+            if (idx := next((i for i, jax in enumerate(axes) if jax == iax), None))
+            is not None
             else ax
             for iax, ax in enumerate(converted["basis"])
         )
     )
-    scaled = converted["data"] * np.sqrt(np.prod(shape) / converted_basis.n)
+    scaled = converted["data"] * np.sqrt(final_basis.fundamental_n / converted_basis.n)
     return {"basis": final_basis, "data": scaled}
-- 
2.43.0


From fc7dde1ea2ded480da4a03a83d249c58d4657e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:11 +0000
Subject: [PATCH 71/71] fix: interpolate the overlap by the number of points of
 each axis

---
 surface_potential_analysis/overlap/interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/overlap/interpolation.py b/surface_potential_analysis/overlap/interpolation.py
index de9fc73..eb3f93c 100644
--- a/surface_potential_analysis/overlap/interpolation.py
+++ b/surface_potential_analysis/overlap/interpolation.py
@@ -69,7 +69,7 @@ def get_overlap_momentum_interpolator_k_fractions(
         overlap["basis"][0], util.stacked_nx_points, axes=(0, 1)
     )
     x_fractions = np.asarray(nx_points_wrapped, dtype=float)[:, :, np.newaxis]
-    x_fractions /= util.shape[0]
+    x_fractions /= np.array(util.shape)[:, np.newaxis, np.newaxis]
 
     def _interpolator(
         k_fractions: ArrayStackedIndexFractionLike[_S0Inv],
-- 
2.43.0

