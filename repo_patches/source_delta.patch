From ccea18b5724e1b78cab0412ddd86e68769b35890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:37 +0000
Subject: [PATCH 01/36] fix: mirror padding next to a periodic axis whose
 boundary values are None

---
 jax_cfd/base/boundaries.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_cfd/base/boundaries.py b/jax_cfd/base/boundaries.py
index de47b34..8a0e1cb 100644
--- a/jax_cfd/base/boundaries.py
+++ b/jax_cfd/base/boundaries.py
@@ -253,7 +253,7 @@ class ConstantBoundaryConditions(BoundaryConditions):
             # here we are adding 0 boundary cell with 0 value
             expanded_data = jnp.pad(
                 data, bc_padding, mode='constant', constant_values=(0, 0))
-            padding_values = list(self.bc_values)
+            padding_values = list(self.constant_values)
             padding_values[axis] = [pad / 2 for pad in padding_values[axis]]
             data = 2 * jnp.pad(
                 data,
-- 
2.43.0


From b8aeb2487c63209212ff29362782a4874f753c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:40 +0000
Subject: [PATCH 02/36] fix: van Leer flux correction for scalars that are not
 cell-centred

---
 jax_cfd/base/advection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jax_cfd/base/advection.py b/jax_cfd/base/advection.py
index f4afd5b..d41f30b 100644
--- a/jax_cfd/base/advection.py
+++ b/jax_cfd/base/advection.py
@@ -288,7 +288,8 @@ def advect_van_leer(
   for axis, (u, h) in enumerate(zip(aligned_v, c.grid.step)):
     u = u.bc.shift(u.array, int(u.offset[axis] % 1 - u.offset[axis]), axis=axis)
     # c is put to offset .5 or 1.
-    c_center_arr = c.shift(int(1 - c.offset[ax]), axis=ax)
+    c_center_arr = c_left_var.shift(
+        int(1 - c_left_var.offset[axis]), axis=axis)
     # if c offset is 1, u offset is .5.
     # if c offset is .5, u offset is 0.
     # u_i is always on the left of c_center_var_i
-- 
2.43.0


From 7217fd3d1c5b99d1de5ea21408bd96f1a8656142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:26 +0000
Subject: [PATCH 03/36] fix: one-dimensional Laplacian matrices of grids with
 one or two cells

---
 jax_cfd/base/array_utils.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/jax_cfd/base/array_utils.py b/jax_cfd/base/array_utils.py
index d40d153..3727494 100644
--- a/jax_cfd/base/array_utils.py
+++ b/jax_cfd/base/array_utils.py
@@ -168,8 +168,10 @@ def block_reduce(
 def laplacian_matrix(size: int, step: float) -> np.ndarray:
   """Create 1D Laplacian operator matrix, with periodic BC."""
   column = np.zeros(size)
-  column[0] = -2 / step**2
-  column[1] = column[-1] = 1 / step**2
+  # Accumulate, because neighbors coincide on grids with one or two cells.
+  column[0] -= 2 / step**2
+  column[1 % size] += 1 / step**2
+  column[-1] += 1 / step**2
   return scipy.linalg.circulant(column)
 
 
@@ -201,15 +203,15 @@ def _laplacian_boundary_dirichlet_cell_centered(laplacians: List[Array],
   # This function assumes homogeneous boundary, in which case if the offset
   # is 0.5 away from the wall, the ghost cell value u[0] = -u[1]. So the
   # 3 point stencil [1 -2 1] * [u[0] u[1] u[2]] = -3 u[1] + u[2].
+  # also deletes the corner dependency on the "looped-around" part across this
+  # side. This subtracts rather than sets to zero, because on grids with one or
+  # two cells the corner is also a neighbor.
   if side == 'lower':
     laplacians[axis][0, 0] = laplacians[axis][0, 0] - 1 / grid.step[axis]**2
+    laplacians[axis][0, -1] -= 1 / grid.step[axis]**2
   else:
     laplacians[axis][-1, -1] = laplacians[axis][-1, -1] - 1 / grid.step[axis]**2
-  # deletes corner dependencies on the "looped-around" part.
-  # this should be done irrespective of which side, since one boundary cannot
-  # be periodic while the other is.
-  laplacians[axis][0, -1] = 0.0
-  laplacians[axis][-1, 0] = 0.0
+    laplacians[axis][-1, 0] -= 1 / grid.step[axis]**2
   return
 
 
@@ -231,15 +233,15 @@ def _laplacian_boundary_neumann_cell_centered(laplacians: List[Array],
   Returns:
     updated list of 1d laplacians.
   """
+  # also deletes the corner dependency on the "looped-around" part across this
+  # side. This subtracts rather than sets to zero, because on grids with one or
+  # two cells the corner is also a neighbor.
   if side == 'lower':
     laplacians[axis][0, 0] = laplacians[axis][0, 0] + 1 / grid.step[axis]**2
+    laplacians[axis][0, -1] -= 1 / grid.step[axis]**2
   else:
     laplacians[axis][-1, -1] = laplacians[axis][-1, -1] + 1 / grid.step[axis]**2
-  # deletes corner dependencies on the "looped-around" part.
-  # this should be done irrespective of which side, since one boundary cannot
-  # be periodic while the other is.
-  laplacians[axis][0, -1] = 0.0
-  laplacians[axis][-1, 0] = 0.0
+    laplacians[axis][-1, 0] -= 1 / grid.step[axis]**2
   return
 
 
-- 
2.43.0


From ed4f2c2c550e12663133a28bfc9d3153fb7fdd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:26 +0000
Subject: [PATCH 04/36] fix: implicit diffusion with inhomogeneous Dirichlet
 values along any axis

---
 jax_cfd/base/diffusion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_cfd/base/diffusion.py b/jax_cfd/base/diffusion.py
index eb28919..d39682d 100644
--- a/jax_cfd/base/diffusion.py
+++ b/jax_cfd/base/diffusion.py
@@ -86,7 +86,7 @@ def _subtract_linear_part_dirichlet(
     return arr_1d
 
   lower_value, upper_value = bc_values
-  y = grid.mesh(offset)[axis][0]
+  y = grid.axes(offset)[axis]
   one_d_grid = grids.Grid((grid.shape[axis],), domain=(grid.domain[axis],))
   y_boundary = boundaries.dirichlet_boundary_conditions(ndim=1)
   y = y_boundary.trim_boundary(grids.GridArray(y, (offset[axis],),
-- 
2.43.0


From b31e484419f8f30633bc0b369f18a6d1d5f7510d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:22 +0000
Subject: [PATCH 05/36] fix: implicit diffusion uses the kinematic viscosity,
 like the explicit solvers

---
 jax_cfd/base/equations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_cfd/base/equations.py b/jax_cfd/base/equations.py
index af0954e..922eb5b 100644
--- a/jax_cfd/base/equations.py
+++ b/jax_cfd/base/equations.py
@@ -190,6 +190,6 @@ def implicit_diffusion_navier_stokes(
     # Pressure projection to incompressible velocity field
     v = pressure_projection(v, pressure_solve)
     # Solve for implicit diffusion
-    v = diffusion_solve(v, viscosity, dt)
+    v = diffusion_solve(v, viscosity / density, dt)
     return v
   return navier_stokes_step
-- 
2.43.0


From adc2811bf3fd8c10694992d9aaf71315ad6c97bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:13 +0000
Subject: [PATCH 06/36] fix: pressure projection with values on walls that do
 not match the boundary condition

---
 jax_cfd/base/pressure.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jax_cfd/base/pressure.py b/jax_cfd/base/pressure.py
index dca8160..c834391 100644
--- a/jax_cfd/base/pressure.py
+++ b/jax_cfd/base/pressure.py
@@ -184,6 +184,9 @@ def projection(
 ) -> GridVariableVector:
   """Apply pressure projection to make a velocity field divergence free."""
   grid = grids.consistent_grid(*v)
+  # Values on the boundary are not corrected by the pressure gradient, so they
+  # have to be in place before computing the divergence.
+  v = tuple(u.impose_bc() for u in v)
   pressure_bc = boundaries.get_pressure_bc_from_velocity(v)
 
   q0 = grids.GridArray(jnp.zeros(grid.shape), grid.cell_center, grid)
-- 
2.43.0


From 16cd4b97742c106f28fe4523614a398761098fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:42 +0000
Subject: [PATCH 07/36] fix: coarsening factors from grid shapes instead of
 rounded steps

---
 jax_cfd/base/resize.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/jax_cfd/base/resize.py b/jax_cfd/base/resize.py
index ceb3c3c..5eb0f0e 100644
--- a/jax_cfd/base/resize.py
+++ b/jax_cfd/base/resize.py
@@ -107,8 +107,8 @@ def top_hat_downsample(
   """
   # assumes different filtering can be done in different directions
   factor = tuple(
-      dx / dx_source
-      for dx, dx_source in zip(destination_grid.step, source_grid.step))
+      n_source / n
+      for n, n_source in zip(destination_grid.shape, source_grid.shape))
   if filter_size is None:
     filter_size = factor
   if isinstance(filter_size, int):
@@ -190,9 +190,12 @@ def downsample_staggered_velocity(
     velocity: Union[Field, GridArrayVector, GridVariableVector],
 ):
   """Downsamples each component of `v` by `factor`."""
-  factor = destination_grid.step[0] / source_grid.step[0]
+  factors = [n_source / n for n, n_source in zip(destination_grid.shape,
+                                                 source_grid.shape)]
+  factor = factors[0]
   assert destination_grid.domain == source_grid.domain
   assert round(factor) == factor, factor
+  assert all(f == factor for f in factors), factors
   result = []
   for j, u in enumerate(velocity):
     if isinstance(u, GridVariable):
-- 
2.43.0


From 69fee5c4c323d4f5c410264273908053d60c6462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:42 +0000
Subject: [PATCH 08/36] fix: spectral coarsening onto grids with an odd number
 of points

---
 jax_cfd/base/resize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jax_cfd/base/resize.py b/jax_cfd/base/resize.py
index 5eb0f0e..da8fcd0 100644
--- a/jax_cfd/base/resize.py
+++ b/jax_cfd/base/resize.py
@@ -234,7 +234,8 @@ def downsample_spectral(_: grids.Grid, destination_grid: grids.Grid,
   input_num_x, _ = signal_hat.shape
 
   downed = jnp.concatenate(
-      [signal_hat[:num_x // 2, :num_y], signal_hat[-num_x // 2:, :num_y]])
+      [signal_hat[:(num_x + 1) // 2, :num_y],
+       signal_hat[input_num_x - num_x // 2:, :num_y]])
 
   scale = (num_x / input_num_x)
   downed *= scale**2
-- 
2.43.0


From 7fcae716a9b25a229560d90c4989f4f828a3d526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:07 +0000
Subject: [PATCH 09/36] fix: Kolmogorov forcing with custom offsets puts every
 component on them

---
 jax_cfd/base/forcings.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/jax_cfd/base/forcings.py b/jax_cfd/base/forcings.py
index 7990a83..d27095e 100644
--- a/jax_cfd/base/forcings.py
+++ b/jax_cfd/base/forcings.py
@@ -76,11 +76,11 @@ def kolmogorov_forcing(
     v = scale * grids.GridArray(jnp.sin(k * x), offsets[1], grid)
 
     if grid.ndim == 2:
-      u = grids.GridArray(jnp.zeros_like(v.data), (1, 1/2), grid)
+      u = grids.GridArray(jnp.zeros_like(v.data), offsets[0], grid)
       f = (u, v)
     elif grid.ndim == 3:
-      u = grids.GridArray(jnp.zeros_like(v.data), (1, 1/2, 1/2), grid)
-      w = grids.GridArray(jnp.zeros_like(u.data), (1/2, 1/2, 1), grid)
+      u = grids.GridArray(jnp.zeros_like(v.data), offsets[0], grid)
+      w = grids.GridArray(jnp.zeros_like(u.data), offsets[2], grid)
       f = (u, v, w)
     else:
       raise NotImplementedError
@@ -89,11 +89,11 @@ def kolmogorov_forcing(
     u = scale * grids.GridArray(jnp.sin(k * y), offsets[0], grid)
 
     if grid.ndim == 2:
-      v = grids.GridArray(jnp.zeros_like(u.data), (1/2, 1), grid)
+      v = grids.GridArray(jnp.zeros_like(u.data), offsets[1], grid)
       f = (u, v)
     elif grid.ndim == 3:
-      v = grids.GridArray(jnp.zeros_like(u.data), (1/2, 1, 1/2), grid)
-      w = grids.GridArray(jnp.zeros_like(u.data), (1/2, 1/2, 1), grid)
+      v = grids.GridArray(jnp.zeros_like(u.data), offsets[1], grid)
+      w = grids.GridArray(jnp.zeros_like(u.data), offsets[2], grid)
       f = (u, v, w)
     else:
       raise NotImplementedError
-- 
2.43.0


From 79da9c3a1b5ba1dc3913824f0b1186b9a00af965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:30 +0000
Subject: [PATCH 10/36] fix: Taylor-Green problem with unequal or non-unit
 wavenumbers

---
 jax_cfd/base/validation_problems.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/jax_cfd/base/validation_problems.py b/jax_cfd/base/validation_problems.py
index bb09b2c..ac6aaca 100644
--- a/jax_cfd/base/validation_problems.py
+++ b/jax_cfd/base/validation_problems.py
@@ -85,12 +85,16 @@ class TaylorGreen(Problem):
     if offsets is None:
       offsets = self.grid.cell_faces
 
-    scale = jnp.exp(-2 * self.viscosity * t)
+    scale = jnp.exp(-(self._kx**2 + self._ky**2) * self.viscosity * t)
+    # Amplitudes proportional to (ky, kx) make the velocity divergence-free.
+    k_max = max(self._kx, self._ky, key=abs) or 1
+    u_scale = scale * self._ky / k_max
+    v_scale = scale * self._kx / k_max
 
     ux, uy = self.grid.mesh(offsets[0])
     u = grids.GridVariable(
         array=grids.GridArray(
-            data=scale * jnp.cos(self._kx * ux) * jnp.sin(self._ky * uy),
+            data=u_scale * jnp.cos(self._kx * ux) * jnp.sin(self._ky * uy),
             offset=offsets[0],
             grid=self.grid),
         bc=boundaries.periodic_boundary_conditions(self.grid.ndim))
@@ -98,7 +102,7 @@ class TaylorGreen(Problem):
     vx, vy = self.grid.mesh(offsets[1])
     v = grids.GridVariable(
         array=grids.GridArray(
-            data=-scale * jnp.sin(self._kx * vx) * jnp.cos(self._ky * vy),
+            data=-v_scale * jnp.sin(self._kx * vx) * jnp.cos(self._ky * vy),
             offset=offsets[1],
             grid=self.grid),
         bc=boundaries.periodic_boundary_conditions(self.grid.ndim))
-- 
2.43.0


From 91e8bca6da488357e7311d25037facbe0678000a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:47 +0000
Subject: [PATCH 11/36] fix: explicit Smagorinsky solver does not divide the
 eddy acceleration by density

---
 jax_cfd/base/subgrid_models.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/jax_cfd/base/subgrid_models.py b/jax_cfd/base/subgrid_models.py
index d2bba37..a8b2a7f 100644
--- a/jax_cfd/base/subgrid_models.py
+++ b/jax_cfd/base/subgrid_models.py
@@ -206,10 +206,16 @@ def explicit_smagorinsky_navier_stokes(dt, cs, forcing, **kwargs):
       smagorinsky_viscosity, dt=dt, cs=cs)
   smagorinsky_acceleration = functools.partial(
       evm_model, viscosity_fn=viscosity_fn)
+  density = kwargs['density']
+
+  # forces are divided by density, unlike accelerations
+  def smagorinsky_force(v):
+    return tuple(density * a for a in smagorinsky_acceleration(v))
+
   if forcing is None:
-    forcing = smagorinsky_acceleration
+    forcing = smagorinsky_force
   else:
-    forcing = forcings.sum_forcings(forcing, smagorinsky_acceleration)
+    forcing = forcings.sum_forcings(forcing, smagorinsky_force)
   return equations.semi_implicit_navier_stokes(dt=dt, forcing=forcing, **kwargs)
 
 
-- 
2.43.0


From fd81af6063da6389da92d42560a68da72cdef6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:35 +0000
Subject: [PATCH 12/36] fix: collocated convection with porous walls along the
 first of two axes

---
 jax_cfd/collocated/advection.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/jax_cfd/collocated/advection.py b/jax_cfd/collocated/advection.py
index a235032..d46e9fc 100644
--- a/jax_cfd/collocated/advection.py
+++ b/jax_cfd/collocated/advection.py
@@ -58,12 +58,11 @@ def _velocities_to_flux(v: GridVariableVector) -> Tuple[GridVariableVector]:
   flux = [tuple() for _ in range(ndim)]
   for i in range(ndim):
     for j in range(ndim):
-      if i <= j:
-        bc = boundaries.get_advection_flux_bc_from_velocity_and_scalar(
-            v[j], v[i], j)
-        flux[i] += (bc.impose_bc(v[i].array * v[j].array),)
-      else:
-        flux[i] += (flux[j][i],)
+      # flux[i][j] and flux[j][i] have equal values, but boundary conditions
+      # for different flux directions.
+      bc = boundaries.get_advection_flux_bc_from_velocity_and_scalar(
+          v[j], v[i], j)
+      flux[i] += (bc.impose_bc(v[i].array * v[j].array),)
   return tuple(flux)
 
 
-- 
2.43.0


From d9159334079e121d34eb4470c7159f2d3274494c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:05 +0000
Subject: [PATCH 13/36] fix: 3/2-rule transforms of signals whose length is not
 a multiple of four

---
 jax_cfd/spectral/utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/jax_cfd/spectral/utils.py b/jax_cfd/spectral/utils.py
index 97a6b49..17db097 100644
--- a/jax_cfd/spectral/utils.py
+++ b/jax_cfd/spectral/utils.py
@@ -32,8 +32,9 @@ def truncated_rfft(u: spectral_types.Array) -> spectral_types.Array:
   """
   uhat = jnp.fft.rfft(u)
   k, = uhat.shape
-  final_size = int(2 / 3 * k) + 1
-  return 2 / 3 * uhat[:final_size]
+  final_size = (2 * k + 2) // 3
+  scale = (final_size - 1) / (k - 1)  # ratio of the sizes in real space
+  return scale * uhat[:final_size]
 
 
 def padded_irfft(uhat: spectral_types.Array) -> spectral_types.Array:
@@ -50,7 +51,8 @@ def padded_irfft(uhat: spectral_types.Array) -> spectral_types.Array:
   final_shape = int(3 / 2 * n)
   smoothed = jnp.pad(uhat, (0, final_shape - n))
   assert smoothed.shape == (final_shape,), "incorrect padded shape"
-  return 1.5 * jnp.fft.irfft(smoothed)
+  scale = (final_shape - 1) / (n - 1)  # ratio of the sizes in real space
+  return scale * jnp.fft.irfft(smoothed)
 
 
 def truncated_fft_2x(u: spectral_types.Array) -> spectral_types.Array:
-- 
2.43.0


From fda1b948ff969a883f69cd28b02d469165fa3978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:20 +0000
Subject: [PATCH 14/36] fix: brick wall filter keeps wavenumbers of both signs

---
 jax_cfd/spectral/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jax_cfd/spectral/utils.py b/jax_cfd/spectral/utils.py
index 17db097..a33a90d 100644
--- a/jax_cfd/spectral/utils.py
+++ b/jax_cfd/spectral/utils.py
@@ -131,8 +131,10 @@ def brick_wall_filter_2d(grid: grids.Grid):
   """Implements the 2/3 rule."""
   n, m = grid.shape
   filter_ = jnp.zeros((n, m // 2 + 1))
-  filter_ = filter_.at[:int(2 / 3 * n) // 2, :int(2 / 3 * (m // 2 + 1))].set(1)
-  filter_ = filter_.at[-int(2 / 3 * n) // 2:, :int(2 / 3 * (m // 2 + 1))].set(1)
+  # keep wavenumbers of both signs, up to the same magnitude
+  max_k = int(2 / 3 * n) // 2
+  filter_ = filter_.at[:max_k + 1, :int(2 / 3 * (m // 2 + 1))].set(1)
+  filter_ = filter_.at[n - max_k:, :int(2 / 3 * (m // 2 + 1))].set(1)
   return filter_
 
 
-- 
2.43.0


From 19b1170873c9c78f9e72de58b18829bc63240588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:27 +0000
Subject: [PATCH 15/36] fix: NavierStokes2D with smooth=False does not filter
 the advection term

---
 jax_cfd/spectral/equations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_cfd/spectral/equations.py b/jax_cfd/spectral/equations.py
index a8f9b63..999be1a 100644
--- a/jax_cfd/spectral/equations.py
+++ b/jax_cfd/spectral/equations.py
@@ -169,7 +169,7 @@ class NavierStokes2D(time_stepping.ImplicitExplicitODE):
     advection = -(grad_x * vx + grad_y * vy)
     advection_hat = jnp.fft.rfftn(advection)
 
-    if self.smooth is not None:
+    if self.smooth:
       advection_hat *= self.filter_
 
     terms = advection_hat
-- 
2.43.0


From 4d9dcea069d423bcf9d0ceba0e25ce2914c0fe3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:10 +0000
Subject: [PATCH 16/36] fix: reject every mismatch in the number of low-storage
 RK coefficients

---
 jax_cfd/spectral/time_stepping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_cfd/spectral/time_stepping.py b/jax_cfd/spectral/time_stepping.py
index 6a5720b..2528be8 100644
--- a/jax_cfd/spectral/time_stepping.py
+++ b/jax_cfd/spectral/time_stepping.py
@@ -156,7 +156,7 @@ def low_storage_runge_kutta_crank_nicolson(
   G = tree_math.unwrap(equation.implicit_terms)
   G_inv = tree_math.unwrap(equation.implicit_solve, vector_argnums=0)
 
-  if len(alphas) - 1 != len(betas) != len(gammas):
+  if not len(alphas) - 1 == len(betas) == len(gammas):
     raise ValueError("number of RK coefficients does not match")
 
   @tree_math.wrap
-- 
2.43.0


From 5ae245519de59aebc6193011fefa57b6203ff440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:52 +0000
Subject: [PATCH 17/36] fix: label spatial autocorrelations by displacement,
 starting at zero

---
 jax_cfd/data/xarray_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jax_cfd/data/xarray_utils.py b/jax_cfd/data/xarray_utils.py
index 1dc971b..5808b8e 100644
--- a/jax_cfd/data/xarray_utils.py
+++ b/jax_cfd/data/xarray_utils.py
@@ -225,7 +225,8 @@ def spatial_autocorrelation(array, spatial_axis='x'):
   # we only report the unique half of the autocorrelation.
   num_unique_displacements = spatial_axis_size // 2
   result = full_result.isel({out_axis_name: slice(0, num_unique_displacements)})
-  displacement_coords = array.coords[spatial_axis][:num_unique_displacements]
+  positions = array.coords[spatial_axis].values
+  displacement_coords = positions[:num_unique_displacements] - positions[0]
   result.coords[out_axis_name] = (out_axis_name, displacement_coords)
   return result
 
-- 
2.43.0


From a738218f6facf1a6241a77ac2f2da7995932de45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:03 +0000
Subject: [PATCH 18/36] fix: correlate state vectors, not batches, in
 correlation_single_step

---
 jax_cfd/ml/metrics.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/jax_cfd/ml/metrics.py b/jax_cfd/ml/metrics.py
index 0fbea33..1d040b5 100644
--- a/jax_cfd/ml/metrics.py
+++ b/jax_cfd/ml/metrics.py
@@ -67,9 +67,10 @@ def correlation_single_step(trajectory: Tuple[Array, ...],
   """Computes correlation on the `n`th time slice."""
   trajectory = jnp.stack(arr_utils.slice_along_axis(trajectory, time_axis, n))
   target = jnp.stack(arr_utils.slice_along_axis(target, time_axis, n))
-  state_axes = tuple(axis if axis <= time_axis else axis - 1
-                     for axis in range(trajectory.ndim)
-                     if axis != time_axis and axis != batch_axis)
+  # slicing removed `time_axis` and stacking added components along axis 0.
+  stacked_batch_axis = batch_axis + 1 - int(batch_axis > time_axis)
+  state_axes = tuple(axis for axis in range(trajectory.ndim)
+                     if axis != stacked_batch_axis)
   trajectory_normalized = _normalize(trajectory, state_axes)
   target_normalized = _normalize(target, state_axes)
   return (trajectory_normalized * target_normalized).sum(axis=state_axes).mean()
-- 
2.43.0


From 040c75b4dcddd4d43433d7ce3236ab9eae4fb5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:03 +0000
Subject: [PATCH 19/36] fix: local_reduce with the batch along an axis other
 than the first

---
 jax_cfd/ml/metrics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jax_cfd/ml/metrics.py b/jax_cfd/ml/metrics.py
index 1d040b5..5583019 100644
--- a/jax_cfd/ml/metrics.py
+++ b/jax_cfd/ml/metrics.py
@@ -99,7 +99,8 @@ def local_reduce(metric: Callable[..., Array],
   """
   def reduced_metric(*args, **kwargs):
     metric_value = jax.vmap(metric, batch_axis)(*args, **kwargs)
-    return reduction_function(metric_value, batch_axis)
+    # vmap stacks the values of the metric along the leading axis.
+    return reduction_function(metric_value, 0)
   return reduced_metric
 
 
-- 
2.43.0


From 4febd1e519c71aa3cf8c7aa83b54918d38b6189f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:08 +0000
Subject: [PATCH 20/36] fix: mirror convolutions pad each axis by its own half
 kernel width

---
 jax_cfd/ml/layers.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/jax_cfd/ml/layers.py b/jax_cfd/ml/layers.py
index 9c662d7..8e2d6ce 100644
--- a/jax_cfd/ml/layers.py
+++ b/jax_cfd/ml/layers.py
@@ -165,12 +165,11 @@ class MirrorConvGeneral(hk.Module):
       **conv_kwargs: additional arguments passed to `base_convolution`.
     """
     super().__init__(name=name)
-    self._padding = np.zeros(2).astype('int')
+    self._padding = []
     for kernel_size in kernel_shape:
       effective_kernel = kernel_size + (rate - 1) * (kernel_size - 1)
       pad_left = effective_kernel // 2
-      self._padding += np.array([pad_left,
-                                 effective_kernel - pad_left - 1]).astype('int')
+      self._padding.append((pad_left, effective_kernel - pad_left - 1))
     self._tile_layout = tile_layout
     self._conv_module = base_convolution(
         output_channels=output_channels, kernel_shape=kernel_shape,
@@ -178,7 +177,7 @@ class MirrorConvGeneral(hk.Module):
 
   def _expand_var(self, var):
     var = var.bc.pad_all(
-        var, (self._padding,) * var.grid.ndim, mode=boundaries.Padding.MIRROR)
+        var, tuple(self._padding), mode=boundaries.Padding.MIRROR)
     return jnp.expand_dims(var.data, axis=-1)
 
   def __call__(self, inputs):
-- 
2.43.0


From 39ab820e062676e841a5bb0523d0e621dc66d29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:13 +0000
Subject: [PATCH 21/36] fix: shift inputs of learned derivatives along each
 spatial axis

---
 jax_cfd/ml/layers.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/jax_cfd/ml/layers.py b/jax_cfd/ml/layers.py
index 8e2d6ce..f13aca6 100644
--- a/jax_cfd/ml/layers.py
+++ b/jax_cfd/ml/layers.py
@@ -624,7 +624,7 @@ class SpatialDerivativeFromLogits:
                        f'size; {logits.shape[-1]} vs. {self.subspace_size}')
 
   def extract_patches(self, inputs):
-    rolled = jnp.roll(inputs, self.roll)
+    rolled = jnp.roll(inputs, self.roll, axis=tuple(range(len(self.roll))))
     patches = layers_util.extract_patches(
         rolled, self.stencil_shape,
         self._extract_patch_method, self.tile_layout)
@@ -746,12 +746,14 @@ class SpatialDerivative:
     # `roll` implementation of `extract_patches`, we can simply add it to the
     # `shifts`. For the `conv` implementation, we may be able to effectively
     # roll the input by adjusting how arrays are padded.
-    rolled = jnp.roll(inputs, self._roll)
+    axes = tuple(range(len(self._roll)))
+    rolled = jnp.roll(inputs, self._roll, axis=axes)
     patches = layers_util.extract_patches(
         rolled, self._stencil_shape,
         self._extract_patch_method, self._tile_layout)
     if auxiliary_inputs is not None:
-      auxiliary_inputs = [jnp.roll(aux, self._roll) for aux in auxiliary_inputs]
+      auxiliary_inputs = [
+          jnp.roll(aux, self._roll, axis=axes) for aux in auxiliary_inputs]
       rolled = jnp.concatenate([rolled, *auxiliary_inputs], axis=-1)
     coefficients = self._coefficients_module(rolled)
     return layers_util.apply_coefficients(coefficients, patches)
-- 
2.43.0


From 019b07a1aa1bcae9ee673ede8f7d533a1d5cc09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:28 +0000
Subject: [PATCH 22/36] fix: reject polynomial constraints that leave no free
 coefficients

---
 jax_cfd/ml/layers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_cfd/ml/layers.py b/jax_cfd/ml/layers.py
index f13aca6..de3fbc7 100644
--- a/jax_cfd/ml/layers.py
+++ b/jax_cfd/ml/layers.py
@@ -508,7 +508,7 @@ class PolynomialConstraint():
     # https://en.wikipedia.org/wiki/Kernel_(linear_algebra)#Nonhomogeneous_systems_of_linear_equations
     _, _, v = np.linalg.svd(constraint_matrix)
     nullspace_size = constraint_matrix.shape[1] - constraint_matrix.shape[0]
-    if not nullspace_size:
+    if nullspace_size <= 0:
       raise ValueError(
           'there is only one valid solution accurate to this order')
 
-- 
2.43.0


From cc80363d7d276919988ddbf8df6cecbdad3a029c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:28 +0000
Subject: [PATCH 23/36] fix: reject accuracy orders that a stencil cannot reach

---
 jax_cfd/ml/layers_util.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jax_cfd/ml/layers_util.py b/jax_cfd/ml/layers_util.py
index fe741f0..0327011 100644
--- a/jax_cfd/ml/layers_util.py
+++ b/jax_cfd/ml/layers_util.py
@@ -214,6 +214,10 @@ def polynomial_accuracy_coefficients(
       excess = 0
     else:
       excess = stencil.size - derivative_order - accuracy_order
+      if excess < 0:
+        raise ValueError(f'stencil of size {stencil.size} is too small for '
+                         f'derivative order {derivative_order} with accuracy '
+                         f'order {accuracy_order}')
     start = excess // 2
     stop = stencil.size - excess // 2
     slice_ = slice(start, stop)
-- 
2.43.0


From c06c37fc05bfbefca4334cc7ab9e42596cb7a93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:56 +0000
Subject: [PATCH 24/36] fix: fused learned interpolation to the offset of its
 input returns the input

---
 jax_cfd/ml/interpolations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jax_cfd/ml/interpolations.py b/jax_cfd/ml/interpolations.py
index f984038..1db3458 100644
--- a/jax_cfd/ml/interpolations.py
+++ b/jax_cfd/ml/interpolations.py
@@ -104,11 +104,11 @@ class FusedLearnedInterpolation:
                dt: float,
                tag=None) -> GridVariable:
     del dt  # not used.
+    # TODO(jamieas): Try removing the following line.
+    if c.offset == offset: return c
     # TODO(dkochkov) Add decorator to expand/squeeze channel dim.
     c = grids.GridVariable(
         grids.GridArray(jnp.expand_dims(c.data, -1), c.offset, c.grid), c.bc)
-    # TODO(jamieas): Try removing the following line.
-    if c.offset == offset: return c
     key = (c.offset, offset, tag)
     interpolator = self._interpolators.get(key)
     if interpolator is None:
-- 
2.43.0


From 4bb830a1fb249e94af02924965249810def134ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:33 +0000
Subject: [PATCH 25/36] fix: constrain derivatives by convolution in the
 precision of the logits

---
 jax_cfd/ml/layers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_cfd/ml/layers.py b/jax_cfd/ml/layers.py
index de3fbc7..fd26b80 100644
--- a/jax_cfd/ml/layers.py
+++ b/jax_cfd/ml/layers.py
@@ -675,7 +675,7 @@ def fuse_spatial_derivative_layers(
   if constrain_with_conv:
     ndim = len(tile_layout)
     kernel = jnp.expand_dims(
-        joint_nullspace.astype(np.float32), axis=tuple(range(ndim)))
+        joint_nullspace.astype(all_logits.dtype), axis=tuple(range(ndim)))
     all_coefficients = joint_bias + layers_util.periodic_convolution(
         all_logits, kernel, tile_layout=tile_layout, precision=precision)
   else:
-- 
2.43.0


From 3d48a0b677735c82b36baf2a1f134c65d5413a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:33 +0000
Subject: [PATCH 26/36] fix: default process_fn of
 velocity_corrector_network_w_boundaries

---
 jax_cfd/ml/networks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_cfd/ml/networks.py b/jax_cfd/ml/networks.py
index f8b2a0d..4c83571 100644
--- a/jax_cfd/ml/networks.py
+++ b/jax_cfd/ml/networks.py
@@ -199,7 +199,7 @@ def velocity_corrector_network_w_boundaries(
     network_offsets: Tuple[Tuple[float, ...], ...],
     num_output_channels: int,
     name: Optional[str] = None,
-    process_fn: Optional[Callable] = _identity,  # pylint: disable=g-bare-generic
+    process_fn: Optional[Callable] = lambda x: x,  # pylint: disable=g-bare-generic
 ):
   """Returns a module that computes corrections to the velocity field."""
   pre_process = functools.partial(
-- 
2.43.0


From db43a73c415c28ee91d24ab15115be2797bdf351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:41 +0000
Subject: [PATCH 27/36] fix: modular Navier-Stokes model does not divide
 accelerations by density

---
 jax_cfd/ml/equations.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/jax_cfd/ml/equations.py b/jax_cfd/ml/equations.py
index 159197d..36d2203 100644
--- a/jax_cfd/ml/equations.py
+++ b/jax_cfd/ml/equations.py
@@ -130,7 +130,14 @@ def modular_navier_stokes_model(
         acceleration_module(grid, dt, physics_specs, v=v)
         for acceleration_module in acceleration_modules
     ]
-    forcing = forcings.sum_forcings(active_forcing_fn, *accelerations)
+
+    def acceleration_forces(v):
+      # equation solvers divide forces by density, unlike accelerations.
+      return [tuple(physics_specs.density * a for a in acceleration(v))
+              for acceleration in accelerations]
+
+    def forcing(v):
+      return equations.sum_fields(active_forcing_fn(v), *acceleration_forces(v))
     pressure_solve_fn = pressure_module(grid, dt, physics_specs)
     step_fn = equation_solver(
         grid=grid,
-- 
2.43.0


From eb106ea056c0aaf67b91c32d044a261411badd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:33 +0000
Subject: [PATCH 28/36] fix: encoders of the last n frames slice along the time
 axis they are given

---
 jax_cfd/ml/encoders.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jax_cfd/ml/encoders.py b/jax_cfd/ml/encoders.py
index c2ca2de..20f3568 100644
--- a/jax_cfd/ml/encoders.py
+++ b/jax_cfd/ml/encoders.py
@@ -101,7 +101,8 @@ def slice_last_n_state_encoder(
   """Generates encoder that returns last `n` data slices along last axis."""
   del grid, dt, physics_specs  # unused.
   def encode_fn(inputs):
-    init_slice = array_utils.slice_along_axis(inputs, 0, slice(-n, None))
+    init_slice = array_utils.slice_along_axis(
+        inputs, time_axis, slice(-n, None))
     return jax.tree.map(lambda x: jnp.moveaxis(x, time_axis, -1), init_slice)
   return encode_fn
 
@@ -117,7 +118,7 @@ def stack_last_n_state_encoder(
   """Generates encoder that stacks last `n` inputs slices along last axis."""
   del grid, dt, physics_specs  # unused.
   def encode_fn(inputs):
-    inputs = array_utils.slice_along_axis(inputs, 0, slice(-n, None))
+    inputs = array_utils.slice_along_axis(inputs, time_axis, slice(-n, None))
     inputs = jax.tree.map(lambda x: jnp.moveaxis(x, time_axis, -1), inputs)
     return array_utils.concat_along_axis(jax.tree.leaves(inputs), axis=-1)
 
-- 
2.43.0


From ebc6d76e0224fadc4204831b529d3d279ec4ff60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:21 +0000
Subject: [PATCH 29/36] fix: Smagorinsky viscosity has finite derivatives where
 there is no strain

---
 jax_cfd/base/subgrid_models.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/jax_cfd/base/subgrid_models.py b/jax_cfd/base/subgrid_models.py
index a8b2a7f..ad756ed 100644
--- a/jax_cfd/base/subgrid_models.py
+++ b/jax_cfd/base/subgrid_models.py
@@ -17,6 +17,7 @@ import functools
 from typing import Any, Callable, Mapping, Optional
 
 import jax
+import jax.numpy as jnp
 from jax_cfd.base import boundaries
 from jax_cfd.base import equations
 from jax_cfd.base import finite_differences
@@ -89,8 +90,13 @@ def smagorinsky_viscosity(
   centered_s_ij = np.vectorize(interpolate_to_center)(s_ij)
   # geometric average
   cutoff = np.prod(np.array(grid.step))**(1 / grid.ndim)
-  viscosity = (cs * cutoff)**2 * np.sqrt(
-      2 * np.trace(centered_s_ij.dot(centered_s_ij)))
+  square = 2 * np.trace(centered_s_ij.dot(centered_s_ij))
+  # the derivative of sqrt is not finite at zero, i.e., where there is no strain
+  is_zero = square.data == 0
+  magnitude = grids.GridArray(
+      jnp.where(is_zero, 0, jnp.sqrt(jnp.where(is_zero, 1, square.data))),
+      square.offset, square.grid)
+  viscosity = (cs * cutoff)**2 * magnitude
   viscosities_dict = {
       offset: wrapped_interp_fn(viscosity, offset, v, dt).data
       for offset in unique_offsets}
-- 
2.43.0


From acdd15f14019230f2c3e116398ed03a17b1fdf94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:50 +0000
Subject: [PATCH 30/36] fix: fast-diagonalization pressure with Neumann and
 Dirichlet sides on different axes

---
 jax_cfd/base/pressure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jax_cfd/base/pressure.py b/jax_cfd/base/pressure.py
index c834391..3d4a91a 100644
--- a/jax_cfd/base/pressure.py
+++ b/jax_cfd/base/pressure.py
@@ -55,6 +55,8 @@ def _rhs_transform(
     u' s.t. u = u' + kernel of the laplacian.
   """
   u_data = u.data
+  if any(boundaries.BCType.DIRICHLET in types for types in bc.types):
+    return u_data  # the laplacian has no kernel.
   for axis in range(u.grid.ndim):
     if bc.types[axis][0] == boundaries.BCType.NEUMANN and bc.types[axis][
         1] == boundaries.BCType.NEUMANN:
-- 
2.43.0


From c0427296c3df537303ad99179b4fe955ba52266f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:20 +0000
Subject: [PATCH 31/36] fix: fast-diagonalization pressure on domains with
 large cells

Eigenvalues of the Laplacian were compared with an absolute cut-off, so that
in single precision the slow modes (on large domains all of them) were
dropped and the projected velocity kept its divergence.
---
 jax_cfd/base/pressure.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/jax_cfd/base/pressure.py b/jax_cfd/base/pressure.py
index 3d4a91a..9a745b7 100644
--- a/jax_cfd/base/pressure.py
+++ b/jax_cfd/base/pressure.py
@@ -18,6 +18,7 @@ from typing import Callable, Optional
 
 import jax.numpy as jnp
 import jax.scipy.sparse.linalg
+import numpy as np
 
 from jax_cfd.base import array_utils
 from jax_cfd.base import boundaries
@@ -150,12 +151,16 @@ def solve_fast_diag(
   laplacians = array_utils.laplacian_matrix_w_boundaries(
       rhs.grid, rhs.offset, pressure_bc)
   rhs_transformed = _rhs_transform(rhs, pressure_bc)
+  # Eigenvalues are calculated in double precision and scale like 1 / step**2.
+  cutoff = 1e3 * np.finfo(np.float64).eps * sum(
+      abs(laplacian).max() for laplacian in laplacians)
   pinv = fast_diagonalization.pseudoinverse(
       laplacians,
       rhs_transformed.dtype,
       hermitian=True,
       circulant=circulant,
-      implementation=implementation)
+      implementation=implementation,
+      cutoff=cutoff)
   return grids.GridArray(pinv(rhs_transformed), rhs.offset, rhs.grid)
 
 
-- 
2.43.0


From 00d23a26d97e76c412452382574d26061b553ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:22 +0000
Subject: [PATCH 32/36] fix: circular filter must not depend on the units of
 length

---
 jax_cfd/spectral/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jax_cfd/spectral/utils.py b/jax_cfd/spectral/utils.py
index a33a90d..430592d 100644
--- a/jax_cfd/spectral/utils.py
+++ b/jax_cfd/spectral/utils.py
@@ -119,8 +119,10 @@ def circular_filter_2d(grid: grids.Grid) -> spectral_types.Array:
   kx, ky = grid.rfft_mesh()
   max_k = ky[-1, -1]
 
-  circle = jnp.sqrt(kx**2 + ky**2)
-  cphi = 0.65 * max_k
+  # the filter is a function of wavenumbers in units of the grid spacing, which
+  # reach pi
+  circle = jnp.pi * jnp.sqrt(kx**2 + ky**2) / max_k
+  cphi = 0.65 * jnp.pi
   filterfac = 23.6
   filter_ = jnp.exp(-filterfac * (circle - cphi)**4.)
   filter_ = jnp.where(circle <= cphi, jnp.ones_like(filter_), filter_)
-- 
2.43.0


From 3e05b432835b5dc8f5cc69a84c7e2787302cb0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:22 +0000
Subject: [PATCH 33/36] fix: number of isotropic shells must not depend on
 rounding errors

---
 jax_cfd/data/xarray_utils.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/jax_cfd/data/xarray_utils.py b/jax_cfd/data/xarray_utils.py
index 5808b8e..e320541 100644
--- a/jax_cfd/data/xarray_utils.py
+++ b/jax_cfd/data/xarray_utils.py
@@ -277,6 +277,11 @@ def groupby_bins_sum(
   return result
 
 
+def _round_half_down(x: float) -> int:
+  """Rounds to an integer, taking halves (up to rounding errors) down."""
+  return int(np.ceil(x - 0.5 - 1e-6))
+
+
 def _isotropize_binsum(ndim, energy):
   """Calculate energy spectrum summing over bins in wavenumber space."""
   wavenumbers = [energy[name] for name in XR_WAVENUMBER_DIMS[:ndim]]
@@ -284,8 +289,9 @@ def _isotropize_binsum(ndim, energy):
   k_max = min(float(w.max()) for w in wavenumbers) - 0.5 * k_spacing
   k = magnitude(*wavenumbers).rename('k')
 
-  bounds = k_spacing * (np.arange(1, round(k_max / k_spacing) + 2) - 0.5)
-  labels = k_spacing * np.arange(1, round(k_max / k_spacing) + 1)
+  num_bins = _round_half_down(k_max / k_spacing)
+  bounds = k_spacing * (np.arange(1, num_bins + 2) - 0.5)
+  labels = k_spacing * np.arange(1, num_bins + 1)
   binned = groupby_bins_sum(energy, k, bounds, labels)
   spectrum = binned.rename(k_bins='k')
   return spectrum
@@ -300,7 +306,7 @@ def _isotropize_interpolation_2d(
   k_spacing = max(float(k[1] - k[0]) for k in wavenumbers)
   k_max = min(float(w.max()) for w in wavenumbers) - 0.5 * k_spacing
 
-  k_values = k_spacing * np.arange(1, round(k_max / k_spacing) + 1)
+  k_values = k_spacing * np.arange(1, _round_half_down(k_max / k_spacing) + 1)
   k = xarray.DataArray(k_values, dims='k', coords={'k': k_values})
 
   angle_values = np.linspace(
-- 
2.43.0


From 2381f7fe6f1b0455a97e9568d2619c06a93239d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:22 +0000
Subject: [PATCH 34/36] fix: interior masks compare positions in units of the
 grid step

---
 jax_cfd/base/grids.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/jax_cfd/base/grids.py b/jax_cfd/base/grids.py
index 3c87f38..5393c51 100644
--- a/jax_cfd/base/grids.py
+++ b/jax_cfd/base/grids.py
@@ -679,11 +679,13 @@ def domain_interior_masks(grid: Grid):
   """Returns cell face arrays with 1 on the interior, 0 on the boundary."""
   masks = []
   for offset in grid.cell_faces:
-    mesh = grid.mesh(offset)
+    # positions in units of the grid step, relative to the lower boundary
+    mesh = np.meshgrid(
+        *[np.arange(n) + o for n, o in zip(grid.shape, offset)], indexing='ij')
     mask = 1
     for i, x in enumerate(mesh):
-      lower = (np.invert(np.isclose(x, grid.domain[i][0]))).astype('int')
-      upper = (np.invert(np.isclose(x, grid.domain[i][1]))).astype('int')
+      lower = (x != 0).astype('int')
+      upper = (x != grid.shape[i]).astype('int')
       mask = mask * upper * lower
     masks.append(mask)
   return tuple(masks)
-- 
2.43.0


From 297e8393fe03a510dd2602ecccefca49c4425cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:31 +0000
Subject: [PATCH 35/36] fix: polynomial constraints independent of the grid
 spacing

---
 jax_cfd/ml/layers.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/jax_cfd/ml/layers.py b/jax_cfd/ml/layers.py
index fd26b80..3cdadb7 100644
--- a/jax_cfd/ml/layers.py
+++ b/jax_cfd/ml/layers.py
@@ -490,18 +490,24 @@ class PolynomialConstraint():
     if len(grid_steps) != 1:
       raise ValueError('nonuniform steps not supported by PolynomialConstraint')
     grid_step, = grid_steps
+    # Constraints are formulated in units of the grid step (without rounding
+    # errors), so that neither their conditioning nor the basis chosen for their
+    # nullspace depends on the grid spacing.
+    stencils = [np.round(stencil / grid_step, 12) for stencil in stencils]
+    scale = (grid_step**np.array(derivative_orders)).prod()
     #  stencil coefficients `c` satisfying `constraint_matrix @ c = rhs`
     #  satisfies polynomial accuracy constraint of the given order
     constraint_matrix, rhs = layers_util.polynomial_accuracy_constraints(
-        stencils, method, derivative_orders, accuracy_order, grid_step)
+        stencils, method, derivative_orders, accuracy_order, grid_step=1.0)
 
     if bias is None:
       bias_grid = layers_util.polynomial_accuracy_coefficients(
-          stencils, method, derivative_orders, bias_accuracy_order, grid_step)
-      bias = bias_grid.ravel()
+          stencils, method, derivative_orders, bias_accuracy_order,
+          grid_step=1.0)
+      bias = bias_grid.ravel() / scale
 
     self.bias = bias
-    norm = np.linalg.norm(np.dot(constraint_matrix, bias) - rhs)
+    norm = np.linalg.norm(np.dot(constraint_matrix, bias * scale) - rhs)
     if norm > 1e-8:
       raise ValueError('invalid bias, not in nullspace')
 
@@ -515,8 +521,7 @@ class PolynomialConstraint():
     # nullspace from the SVD is always normalized such that its singular values
     # are 1 or 0, which means it's actually independent of the grid spacing.
     self._nullspace_size = nullspace_size
-    self.nullspace = v[-nullspace_size:]
-    self.nullspace /= (grid_step**np.array(derivative_orders)).prod()
+    self.nullspace = v[-nullspace_size:] / scale
 
   @property
   def subspace_size(self) -> int:
-- 
2.43.0


From a26b582a8c6950c0739aabce1f43dcf9aab80407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:31 +0000
Subject: [PATCH 36/36] fix: polynomial constraints accept steps that are equal
 up to rounding

---
 jax_cfd/ml/layers.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/jax_cfd/ml/layers.py b/jax_cfd/ml/layers.py
index 3cdadb7..a0af051 100644
--- a/jax_cfd/ml/layers.py
+++ b/jax_cfd/ml/layers.py
@@ -486,10 +486,9 @@ class PolynomialConstraint():
         TPUs.
     """
     self.precision = precision
-    grid_steps = {*steps}
-    if len(grid_steps) != 1:
+    grid_step = steps[0]
+    if not np.allclose(steps, grid_step, rtol=1e-6, atol=0):
       raise ValueError('nonuniform steps not supported by PolynomialConstraint')
-    grid_step, = grid_steps
     # Constraints are formulated in units of the grid step (without rounding
     # errors), so that neither their conditioning nor the basis chosen for their
     # nullspace depends on the grid spacing.
-- 
2.43.0

