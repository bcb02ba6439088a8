From 1d96425f3d990d3bcfdfd1820ac290bf12fb382e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:24 +0000
Subject: [PATCH 01/40] fix: covariant exchange from panel 2 to its south
 neighbour sends the first component

---
 wx_factory/process_topology.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wx_factory/process_topology.py b/wx_factory/process_topology.py
index 2f23b91..cf498a5 100644
--- a/wx_factory/process_topology.py
+++ b/wx_factory/process_topology.py
@@ -188,7 +188,7 @@ class ProcessTopology:
                 lambda a1, a2, x: (a1 + 2.0 * x / (1.0 + x**2) * a2, a2),  # East neighbor
             ],
             [  # Panel 2
-                lambda a1, a2, x: (-a2, -a2 + 2.0 * x / (1.0 + x**2) * a1),  # South neighbor
+                lambda a1, a2, x: (-a1, -a2 + 2.0 * x / (1.0 + x**2) * a1),  # South neighbor
                 lambda a1, a2, x: (-a1, -a2 - 2.0 * x / (1.0 + x**2) * a1),  # North neighbor
                 lambda a1, a2, x: (a1 - 2.0 * x / (1.0 + x**2) * a2, a2),  # West neighbor
                 lambda a1, a2, x: (a1 + 2.0 * x / (1.0 + x**2) * a2, a2),  # East neighbor
-- 
2.43.0


From a76da9c7e9ea514e24e8719970b173ca38ca3840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:20 +0000
Subject: [PATCH 02/40] fix: area element of the 2D cubed sphere is half of
 what it should be

The map from the reference square to an element has a Jacobian of dx1*dx2/4, so every global integral was printed with half its value.
---
 wx_factory/geometry/metric2d.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wx_factory/geometry/metric2d.py b/wx_factory/geometry/metric2d.py
index 04f67a1..ce5bd60 100644
--- a/wx_factory/geometry/metric2d.py
+++ b/wx_factory/geometry/metric2d.py
@@ -127,9 +127,9 @@ class Metric2D:
         # x1 and x2 run from -pi/4 to pi/4 and x3 runs from 0 to htop, but inside each elemenet
         # (from the perspective of the differentiation matrices) each coordinate runs from -1 to 1.
 
-        self.sqrtG *= geom.delta_x1 * geom.delta_x2 / 8.0
-        self.sqrtG_itf_i *= geom.delta_x1 * geom.delta_x2 / 8.0
-        self.sqrtG_itf_j *= geom.delta_x1 * geom.delta_x2 / 8.0
+        self.sqrtG *= geom.delta_x1 * geom.delta_x2 / 4.0
+        self.sqrtG_itf_i *= geom.delta_x1 * geom.delta_x2 / 4.0
+        self.sqrtG_itf_j *= geom.delta_x1 * geom.delta_x2 / 4.0
 
         self.inv_sqrtG = 1.0 / self.sqrtG
 
-- 
2.43.0


From f2748e6a038c8430aaa2e6fdf00d4006876a757d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:20 +0000
Subject: [PATCH 03/40] fix: vorticity diagnostic differentiates the wrong
 components, without the values at element edges

---
 wx_factory/output/diagnostic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wx_factory/output/diagnostic.py b/wx_factory/output/diagnostic.py
index a5b1844..475ccdb 100644
--- a/wx_factory/output/diagnostic.py
+++ b/wx_factory/output/diagnostic.py
@@ -11,8 +11,8 @@ def relative_vorticity(u1_contra: NDArray, u2_contra: NDArray, metric: Metric2D,
     u1_dual = metric.H_cov_11 * u1_contra + metric.H_cov_12 * u2_contra
     u2_dual = metric.H_cov_21 * u1_contra + metric.H_cov_22 * u2_contra
 
-    du1dx2 = u2_dual @ mtrx.derivative_y
-    du2dx1 = u1_dual @ mtrx.derivative_x
+    du1dx2 = u1_dual @ mtrx.derivative_y + (u1_dual @ mtrx.extrap_y) @ mtrx.correction_SN
+    du2dx1 = u2_dual @ mtrx.derivative_x + (u2_dual @ mtrx.extrap_x) @ mtrx.correction_WE
 
     vort = metric.inv_sqrtG * (du2dx1 - du1dx2)
 
-- 
2.43.0


From 9a11d9f8b19a2e6ac7e1d232fc3c17da53f766e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:20 +0000
Subject: [PATCH 04/40] fix: printing an output time above 1000 s raises an
 exception at the end of the run

---
 wx_factory/output/output_manager.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/wx_factory/output/output_manager.py b/wx_factory/output/output_manager.py
index f75db46..56c4fbb 100644
--- a/wx_factory/output/output_manager.py
+++ b/wx_factory/output/output_manager.py
@@ -26,11 +26,8 @@ def _readable_time(seconds):
     elif seconds < 1.0:
         return f"{seconds * 1e3:.1f} ms"
     elif seconds > 1000:
-        h_s = int(seconds)
-        h = h_s // 3600
-        rem = seconds - h_s
-        m = rem // 60
-        s = rem % 60
+        h, rem = divmod(int(seconds), 3600)
+        m, s = divmod(rem, 60)
         return f"{h}:{m:02d}:{s:02d}"
     else:
         return f"{seconds:.2f}"
-- 
2.43.0


From b9f290be8912fbb33e7b64aa1e2a3d2c379d9cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:20 +0000
Subject: [PATCH 05/40] fix: writing the solution adds the topography to the
 model state

---
 wx_factory/output/output_cubesphere_netcdf.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/wx_factory/output/output_cubesphere_netcdf.py b/wx_factory/output/output_cubesphere_netcdf.py
index 882e7dd..590f8cb 100644
--- a/wx_factory/output/output_cubesphere_netcdf.py
+++ b/wx_factory/output/output_cubesphere_netcdf.py
@@ -312,9 +312,8 @@ class OutputCubesphereNetcdf(OutputCubesphere):
 
             # Unpack physical variables
             h = Q[idx_h, :, :]
-            if self.topo is not None:
-                h += self.topo.hsurf
-            self.store_field(geom.to_single_block(prepare(h)), "h", idx)
+            height = h + self.topo.hsurf if self.topo is not None else h
+            self.store_field(geom.to_single_block(prepare(height)), "h", idx)
 
             if self.config.case_number >= 2:
                 u1 = Q[idx_hu1, :, :] / h
-- 
2.43.0


From 9ca1e30b46546315c80833f601e9bb1777c6e540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:20 +0000
Subject: [PATCH 06/40] fix: Euler output to netcdf fails with more than one
 process per panel

---
 wx_factory/output/output_cubesphere_netcdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wx_factory/output/output_cubesphere_netcdf.py b/wx_factory/output/output_cubesphere_netcdf.py
index 590f8cb..3aa0dec 100644
--- a/wx_factory/output/output_cubesphere_netcdf.py
+++ b/wx_factory/output/output_cubesphere_netcdf.py
@@ -287,7 +287,7 @@ class OutputCubesphereNetcdf(OutputCubesphere):
         lats = self._gather_field(prepare(self.geometry.block_lat * 180 / math.pi), 2)
         if self.config.equations == "euler":
             elevs = self._gather_field(prepare(self.geometry.coordVec_latlon[2, :, :, :]), 3)
-            topos = self._gather_field(prepare(self.geometry.zbot[:, :]), 3)
+            topos = self._gather_field(prepare(self.geometry.zbot[:, :]), 2)
 
         if self.rank == 0:
             for i in range(6):
-- 
2.43.0


From a45449119ff489956ea6d34c5e2ddea925bc6053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:20 +0000
Subject: [PATCH 07/40] fix: opening the output file synchronizes processes
 that are not part of the simulation

---
 wx_factory/output/output_cubesphere_netcdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wx_factory/output/output_cubesphere_netcdf.py b/wx_factory/output/output_cubesphere_netcdf.py
index 3aa0dec..08d4b4d 100644
--- a/wx_factory/output/output_cubesphere_netcdf.py
+++ b/wx_factory/output/output_cubesphere_netcdf.py
@@ -56,7 +56,7 @@ class OutputCubesphereNetcdf(OutputCubesphere):
         import netCDF4
 
         # creating the netcdf file(s)
-        with SingleProcess() as s, Conditional(s):
+        with SingleProcess(self.comm) as s, Conditional(s):
             self.ncfile = netCDF4.Dataset(self.filename, "w", format="NETCDF4")
 
         # create dimensions
-- 
2.43.0


From 261b76563c374a33cb1195d41a349e35792b73dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:53 +0000
Subject: [PATCH 08/40] fix: rounding of the accumulated time adds a step after
 the end of the run

The time is now derived from the step number and the configured time step is left unchanged by a shorter last step.
---
 wx_factory/simulation/simulation.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/wx_factory/simulation/simulation.py b/wx_factory/simulation/simulation.py
index b411ea8..0465ec6 100644
--- a/wx_factory/simulation/simulation.py
+++ b/wx_factory/simulation/simulation.py
@@ -128,24 +128,24 @@ class Simulation:
 
         self.t = self.config.dt * self.starting_step
         self.integrator.sim_time = self.t
-        self.num_steps = int(numpy.ceil(self.config.t_end / self.config.dt)) - self.starting_step
+        # Tolerance: rounding of t_end / dt must not add an (almost) empty step
+        total_steps = int(numpy.ceil(self.config.t_end / self.config.dt * (1.0 - 1e-12)))
+        self.num_steps = total_steps - self.starting_step
 
     def step(self):
         """Advance the simulation by one time step."""
-        if self.t < self.config.t_end:
-            if self.t + self.config.dt > self.config.t_end:
-                self.config.dt = self.config.t_end - self.t
-                self.t = self.config.t_end
-            else:
-                self.t += self.config.dt
-
+        last_step = self.starting_step + self.num_steps
+        if self.step_id < last_step:
+            # Time is derived from the step number, so that rounding errors do not accumulate
+            dt = min(self.config.dt, self.config.t_end - self.step_id * self.config.dt)
             self.step_id += 1
+            self.t = self.step_id * self.config.dt if self.step_id < last_step else self.config.t_end
 
             if self.rank == 0:
                 print(f"Step {self.step_id} of {self.num_steps + self.starting_step}", flush=True)
 
-            self.Q = self.integrator.step(self.Q, self.config.dt)
-            self.Q = self.operators.apply_filters(self.Q, self.geometry, self.metric, self.config.dt)
+            self.Q = self.integrator.step(self.Q, dt)
+            self.Q = self.operators.apply_filters(self.Q, self.geometry, self.metric, dt)
 
             if self.rank == 0:
                 print(f"Elapsed time for step: {self.integrator.latest_time:.3f} secs", flush=True)
-- 
2.43.0


From 59ec99e5da01acc8977d8a622b09c3f5ee846b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:53 +0000
Subject: [PATCH 09/40] fix: time written with a shorter last step is not the
 end time

---
 wx_factory/output/output_cubesphere_netcdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wx_factory/output/output_cubesphere_netcdf.py b/wx_factory/output/output_cubesphere_netcdf.py
index 08d4b4d..a317bba 100644
--- a/wx_factory/output/output_cubesphere_netcdf.py
+++ b/wx_factory/output/output_cubesphere_netcdf.py
@@ -306,7 +306,7 @@ class OutputCubesphereNetcdf(OutputCubesphere):
         idx = 0
         if self.ncfile is not None:
             idx = len(self.ncfile["time"])
-            self.ncfile["time"][idx] = step_id * self.config.dt
+            self.ncfile["time"][idx] = min(step_id * self.config.dt, self.config.t_end)
 
         if isinstance(geom, CubedSphere2D):  # Shallow water
 
-- 
2.43.0


From a15d0d3ae4302a4b99ac8957bc7af01a60551249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:20 +0000
Subject: [PATCH 10/40] fix: Coriolis terms of the 3D cubed sphere have a wrong
 sign and a wrong factor in the second component's contribution

---
 wx_factory/geometry/metric3d.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wx_factory/geometry/metric3d.py b/wx_factory/geometry/metric3d.py
index 80cafeb..66e9d7d 100644
--- a/wx_factory/geometry/metric3d.py
+++ b/wx_factory/geometry/metric3d.py
@@ -679,7 +679,7 @@ class Metric3DTopo:
                 Omega * X_int * Y_int / deltasq * rot1 + dRdx1_int * Omega / (R_int * (1 + X_int**2)) * rot2
             )
             Christoffel_1_02 = (
-                -Omega * (-(1 + Y_int**2) / deltasq) * rot1 + dRdx2_int * Omega / (R_int * (1 + X_int**2)) * rot2
+                -Omega * (1 + Y_int**2) / deltasq * rot1 + dRdx2_int * Omega / (R_int * (1 + X_int**2)) * rot2
             )
             Christoffel_1_03 = dRdeta_int * Omega / (R_int * (1 + X_int**2)) * rot2
 
@@ -689,7 +689,7 @@ class Metric3DTopo:
         else:  # Shallow atmosphere, R->A
             Christoffel_1_01 = Omega * X_int * Y_int / deltasq * rot1 + dRdx1_int * Omega / (A * (1 + X_int**2)) * rot2
             Christoffel_1_02 = (
-                -Omega * (-(1 + Y_int**2) / deltasq) * rot1 + dRdx2_int * Omega / (A * (1 + X_int**2)) * rot2
+                -Omega * (1 + Y_int**2) / deltasq * rot1 + dRdx2_int * Omega / (A * (1 + X_int**2)) * rot2
             )
             Christoffel_1_03 = dRdeta_int * Omega / (A * (1 + X_int**2)) * rot2
 
@@ -708,7 +708,7 @@ class Metric3DTopo:
                 Omega * (1 + X_int**2) / deltasq * rot1 + dRdx1_int * Omega / (R_int * (1 + Y_int**2)) * rot3
             )
             Christoffel_2_02 = (
-                -Omega * X_int * Y_int / deltasq * rot2 + dRdx2_int * Omega / (R_int * (1 + Y_int**2)) * rot3
+                -Omega * X_int * Y_int / deltasq * rot1 + dRdx2_int * Omega / (R_int * (1 + Y_int**2)) * rot3
             )
             Christoffel_2_03 = dRdeta_int * Omega / (R_int * (1 + Y_int**2)) * rot3
 
@@ -720,7 +720,7 @@ class Metric3DTopo:
             Christoffel_2_23 = dRdeta_int / R_int
         else:  # Shallow
             Christoffel_2_01 = Omega * (1 + X_int**2) / deltasq * rot1 + dRdx1_int * Omega / (A * (1 + Y_int**2)) * rot3
-            Christoffel_2_02 = -Omega * X_int * Y_int / deltasq * rot2 + dRdx2_int * Omega / (A * (1 + Y_int**2)) * rot3
+            Christoffel_2_02 = -Omega * X_int * Y_int / deltasq * rot1 + dRdx2_int * Omega / (A * (1 + Y_int**2)) * rot3
             Christoffel_2_03 = dRdeta_int * Omega / (A * (1 + Y_int**2)) * rot3
 
             Christoffel_2_11 = 0
-- 
2.43.0


From 0ca59fa08b49164f9857fbabf48975656404fa72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:48 +0000
Subject: [PATCH 11/40] fix: shallow-water runs with one element per panel side
 fail

---
 wx_factory/geometry/cubed_sphere_2d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wx_factory/geometry/cubed_sphere_2d.py b/wx_factory/geometry/cubed_sphere_2d.py
index 8f944ea..99f8b31 100644
--- a/wx_factory/geometry/cubed_sphere_2d.py
+++ b/wx_factory/geometry/cubed_sphere_2d.py
@@ -532,7 +532,7 @@ class CubedSphere2D(CubedSphere):
             new[self.east_edge] = 0.0
             new[self.west_edge] = 0.0
 
-            return xp.squeeze(new)
+            return new
         else:
             raise ValueError(f"Unexpected array shape {a.shape} (expected {expected_shape})")
 
@@ -557,7 +557,7 @@ class CubedSphere2D(CubedSphere):
 
             # raise ValueError(f'a = \n{a[0]}\nnew_tmp = \n{new_tmp[0]}\nnew = \n{new[0]}')
 
-            return xp.squeeze(new)
+            return new
         else:
             raise ValueError(f"Unexpected array shape {a.shape} (expected {expected_shape})")
 
-- 
2.43.0


From cb00f71171016eac21262d422d2f9ed9999eddc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:48 +0000
Subject: [PATCH 12/40] fix: times in the netcdf output are in seconds, not
 hours

---
 wx_factory/output/output_cubesphere_netcdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wx_factory/output/output_cubesphere_netcdf.py b/wx_factory/output/output_cubesphere_netcdf.py
index a317bba..c054213 100644
--- a/wx_factory/output/output_cubesphere_netcdf.py
+++ b/wx_factory/output/output_cubesphere_netcdf.py
@@ -90,7 +90,7 @@ class OutputCubesphereNetcdf(OutputCubesphere):
 
             # create time axis
             tme = self.ncfile.createVariable("time", numpy.float64, ("time",))
-            tme.units = "hours since 1800-01-01"
+            tme.units = "seconds since 1800-01-01"
             tme.long_name = "time"
             tme.set_collective(False)
 
-- 
2.43.0


From 32297c2180be62e60529f824ad64cc9faa049cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:48 +0000
Subject: [PATCH 13/40] fix: Ydim of the netcdf output repeats the first tile
 with more than 6 processes

---
 wx_factory/output/output_cubesphere.py        | 7 ++++---
 wx_factory/output/output_cubesphere_netcdf.py | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/wx_factory/output/output_cubesphere.py b/wx_factory/output/output_cubesphere.py
index b790527..13025b3 100644
--- a/wx_factory/output/output_cubesphere.py
+++ b/wx_factory/output/output_cubesphere.py
@@ -126,8 +126,9 @@ class OutputCubesphere(OutputManager):
         if self.rank == 0:
             print("================================================================================================")
 
-    def _gather_panel(self, field: NDArray) -> Optional[NDArray]:
-        """ """
+    def _gather_panel(self, field: NDArray, along_columns: bool = False) -> Optional[NDArray]:
+        """Gather data from all tiles of the panel. 1D data is joined along the first row of tiles (by default) or along
+        the first column."""
         panel_comm = self.process_topology.panel_comm
         xp = self.device.xp
 
@@ -144,7 +145,7 @@ class OutputCubesphere(OutputManager):
 
         side = self.process_topology.num_lines_per_panel
         if field.ndim == 1:
-            panel_field = xp.concatenate(panel_fields[:side])
+            panel_field = xp.concatenate(panel_fields[::side] if along_columns else panel_fields[:side])
         else:
             panel_field = xp.concatenate(
                 [xp.concatenate(panel_fields[i * side : (i + 1) * side], axis=-1) for i in range(side)], axis=-2
diff --git a/wx_factory/output/output_cubesphere_netcdf.py b/wx_factory/output/output_cubesphere_netcdf.py
index c054213..985dba6 100644
--- a/wx_factory/output/output_cubesphere_netcdf.py
+++ b/wx_factory/output/output_cubesphere_netcdf.py
@@ -273,7 +273,7 @@ class OutputCubesphereNetcdf(OutputCubesphere):
         prepare = self.device.to_host
 
         panel_x = self._gather_panel(prepare(self.geometry.x1[...]))
-        panel_y = self._gather_panel(prepare(self.geometry.x2[...]))
+        panel_y = self._gather_panel(prepare(self.geometry.x2[...]), along_columns=True)
 
         if self.rank == 0:
             xxx[:] = panel_x
-- 
2.43.0


From ae55a42757148a8539d70cb0c64ea519035a75c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:21 +0000
Subject: [PATCH 14/40] fix: FGMRES does not recognise an exact initial guess,
 and processes may disagree on stagnation

---
 wx_factory/solvers/fgmres.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/wx_factory/solvers/fgmres.py b/wx_factory/solvers/fgmres.py
index 6cf5ce7..6b21728 100644
--- a/wx_factory/solvers/fgmres.py
+++ b/wx_factory/solvers/fgmres.py
@@ -175,6 +175,9 @@ def fgmres(
 
     residuals.append(((norm_r / norm_b).item(), time() - t_start, 0.0))
 
+    if norm_r == 0.0:  # The initial guess already is the solution
+        return x, norm_r, norm_b, niter, 0, residuals
+
     for outer in range(maxiter):
         # NOTE: We are dealing with row-major matrices, but we store the transpose of H and V.
         H = xp.zeros((restart + 2, restart + 2))
@@ -256,18 +259,18 @@ def fgmres(
                 print(f"{prefix}res: {norm_r/norm_b:.2e} (iter {niter})", flush=True)
 
         # TODO : End cpu calculation here
-        # Has GMRES stagnated?
-        indices = x != 0
-        if indices.any():
-            change = xp.max(xp.abs(update[indices] / x[indices]))
-            if change < 1e-12:
-                # No change, halt
-                return x, norm_r, norm_b, niter, -1, residuals
-
         # test for convergence
         if norm_r < tol_relative:
             return x, norm_r, norm_b, niter, 0, residuals
 
+        # Has GMRES stagnated? (all processes must reach the same conclusion)
+        indices = x != 0
+        change = float(xp.max(xp.abs(update[indices] / x[indices]))) if indices.any() else -1.0
+        change = comm.allreduce(change, op=MPI.MAX)
+        if 0.0 <= change < 1e-12:
+            # No change, halt
+            return x, norm_r, norm_b, niter, -1, residuals
+
     # end outer loop
 
     flag = 0
-- 
2.43.0


From 6265c8a987e929529b845a3f4f8a0bf0752adcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:21 +0000
Subject: [PATCH 15/40] fix: exponential solvers: augmented part of the Krylov
 vectors wrong after the first substep

---
 wx_factory/solvers/cwy_1s.py     | 2 +-
 wx_factory/solvers/cwy_ne.py     | 2 +-
 wx_factory/solvers/cwy_ne1s.py   | 2 +-
 wx_factory/solvers/dcgs2.py      | 2 +-
 wx_factory/solvers/icwy_1s.py    | 2 +-
 wx_factory/solvers/icwy_ne.py    | 2 +-
 wx_factory/solvers/icwy_ne1s.py  | 2 +-
 wx_factory/solvers/icwy_neiop.py | 2 +-
 wx_factory/solvers/kiops.py      | 2 +-
 wx_factory/solvers/kiops_nest.py | 2 +-
 wx_factory/solvers/pmex.py       | 2 +-
 wx_factory/solvers/pmex_1s.py    | 2 +-
 wx_factory/solvers/pmex_ne1s.py  | 2 +-
 13 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/wx_factory/solvers/cwy_1s.py b/wx_factory/solvers/cwy_1s.py
index bdb7901..ccf98ee 100644
--- a/wx_factory/solvers/cwy_1s.py
+++ b/wx_factory/solvers/cwy_1s.py
@@ -159,7 +159,7 @@ def cwy_1s(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=Fa
 
             # Update the last part of w
             for k in range(p - 1):
-                i = p - k + 1
+                i = p - k - 1
                 V[j, n + k] = (τ_now**i) / math.factorial(i) * mu
             V[j, n + p - 1] = mu
 
diff --git a/wx_factory/solvers/cwy_ne.py b/wx_factory/solvers/cwy_ne.py
index 5efd894..61d53c2 100644
--- a/wx_factory/solvers/cwy_ne.py
+++ b/wx_factory/solvers/cwy_ne.py
@@ -147,7 +147,7 @@ def cwy_ne(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=Fa
 
             # Update the last part of w
             for k in range(p - 1):
-                i = p - k + 1
+                i = p - k - 1
                 V[j, n + k] = (τ_now**i) / math.factorial(i) * mu
             V[j, n + p - 1] = mu
 
diff --git a/wx_factory/solvers/cwy_ne1s.py b/wx_factory/solvers/cwy_ne1s.py
index d22fe38..2055dbc 100644
--- a/wx_factory/solvers/cwy_ne1s.py
+++ b/wx_factory/solvers/cwy_ne1s.py
@@ -142,7 +142,7 @@ def cwy_ne1s(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=
 
             # Update the last part of w
             for k in range(p - 1):
-                i = p - k + 1
+                i = p - k - 1
                 V[j, n + k] = (τ_now**i) / math.factorial(i) * mu
             V[j, n + p - 1] = mu
 
diff --git a/wx_factory/solvers/dcgs2.py b/wx_factory/solvers/dcgs2.py
index 9ac2edd..98a289f 100644
--- a/wx_factory/solvers/dcgs2.py
+++ b/wx_factory/solvers/dcgs2.py
@@ -142,7 +142,7 @@ def dcgs2(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=Fal
 
             # Update the last part of w
             for k in range(p - 1):
-                i = p - k + 1
+                i = p - k - 1
                 V[j, n + k] = (τ_now**i) / math.factorial(i) * mu
             V[j, n + p - 1] = mu
 
diff --git a/wx_factory/solvers/icwy_1s.py b/wx_factory/solvers/icwy_1s.py
index 06c3010..a8f5793 100644
--- a/wx_factory/solvers/icwy_1s.py
+++ b/wx_factory/solvers/icwy_1s.py
@@ -153,7 +153,7 @@ def icwy_1s(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=F
 
             # Update the last part of w
             for k in range(p - 1):
-                i = p - k + 1
+                i = p - k - 1
                 V[j, n + k] = (τ_now**i) / math.factorial(i) * mu
             V[j, n + p - 1] = mu
 
diff --git a/wx_factory/solvers/icwy_ne.py b/wx_factory/solvers/icwy_ne.py
index 075f316..086aeeb 100644
--- a/wx_factory/solvers/icwy_ne.py
+++ b/wx_factory/solvers/icwy_ne.py
@@ -142,7 +142,7 @@ def icwy_ne(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=F
 
             # Update the last part of w
             for k in range(p - 1):
-                i = p - k + 1
+                i = p - k - 1
                 V[j, n + k] = (τ_now**i) / math.factorial(i) * mu
             V[j, n + p - 1] = mu
 
diff --git a/wx_factory/solvers/icwy_ne1s.py b/wx_factory/solvers/icwy_ne1s.py
index f220e7e..61f1c84 100644
--- a/wx_factory/solvers/icwy_ne1s.py
+++ b/wx_factory/solvers/icwy_ne1s.py
@@ -144,7 +144,7 @@ def icwy_ne1s(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1
 
             # Update the last part of w
             for k in range(p - 1):
-                i = p - k + 1
+                i = p - k - 1
                 V[j, n + k] = (τ_now**i) / math.factorial(i) * mu
             V[j, n + p - 1] = mu
 
diff --git a/wx_factory/solvers/icwy_neiop.py b/wx_factory/solvers/icwy_neiop.py
index 907fed3..f16774d 100644
--- a/wx_factory/solvers/icwy_neiop.py
+++ b/wx_factory/solvers/icwy_neiop.py
@@ -142,7 +142,7 @@ def icwy_neiop(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task
 
             # Update the last part of w
             for k in range(p - 1):
-                i = p - k + 1
+                i = p - k - 1
                 V[j, n + k] = (τ_now**i) / math.factorial(i) * mu
             V[j, n + p - 1] = mu
 
diff --git a/wx_factory/solvers/kiops.py b/wx_factory/solvers/kiops.py
index 34a724b..3fa344d 100644
--- a/wx_factory/solvers/kiops.py
+++ b/wx_factory/solvers/kiops.py
@@ -158,7 +158,7 @@ def kiops(
 
             # Update the last part of w
             for k in range(p - 1):
-                i = p - k + 1
+                i = p - k - 1
                 V[0, n + k] = (tau_now**i) / math.factorial(i) * mu
             V[0, n + p - 1] = mu
 
diff --git a/wx_factory/solvers/kiops_nest.py b/wx_factory/solvers/kiops_nest.py
index 1021819..1caee69 100644
--- a/wx_factory/solvers/kiops_nest.py
+++ b/wx_factory/solvers/kiops_nest.py
@@ -142,7 +142,7 @@ def kiops_nest(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task
 
             # Update the last part of w
             for k in range(p - 1):
-                i = p - k + 1
+                i = p - k - 1
                 V[j, n + k] = (τ_now**i) / math.factorial(i) * mu
             V[j, n + p - 1] = mu
 
diff --git a/wx_factory/solvers/pmex.py b/wx_factory/solvers/pmex.py
index 16d1c7c..9c7a30a 100644
--- a/wx_factory/solvers/pmex.py
+++ b/wx_factory/solvers/pmex.py
@@ -141,7 +141,7 @@ def pmex(
 
             # Update the last part of w
             for k in range(p - 1):
-                i = p - k + 1
+                i = p - k - 1
                 V[j, n + k] = (tau_now**i) / math.factorial(i) * mu
             V[j, n + p - 1] = mu
 
diff --git a/wx_factory/solvers/pmex_1s.py b/wx_factory/solvers/pmex_1s.py
index 04641fb..8456cc1 100644
--- a/wx_factory/solvers/pmex_1s.py
+++ b/wx_factory/solvers/pmex_1s.py
@@ -129,7 +129,7 @@ def pmex_1s(τ_out, A, u, tol=1e-7, delta=1.2, m_init=10, mmin=10, mmax=128, reu
 
             # Update the last part of w
             for k in range(p - 1):
-                i = p - k + 1
+                i = p - k - 1
                 V[j, n + k] = (τ_now**i) / math.factorial(i) * mu
             V[j, n + p - 1] = mu
 
diff --git a/wx_factory/solvers/pmex_ne1s.py b/wx_factory/solvers/pmex_ne1s.py
index b292a09..d1065e6 100644
--- a/wx_factory/solvers/pmex_ne1s.py
+++ b/wx_factory/solvers/pmex_ne1s.py
@@ -115,7 +115,7 @@ def pmex_ne1s(τ_out, A, u, tol=1e-7, delta=1.2, m_init=10, mmin=10, mmax=128, r
 
             # Update the last part of w
             for k in range(p - 1):
-                i = p - k + 1
+                i = p - k - 1
                 V[j, n + k] = (τ_now**i) / math.factorial(i) * mu
             V[j, n + p - 1] = mu
 
-- 
2.43.0


From 5d360717baab566bce5942ce3733ee00798d4834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:21 +0000
Subject: [PATCH 16/40] fix: exponential solvers: last column of the Hessenberg
 matrix lost when the Krylov space is exhausted

---
 wx_factory/solvers/cwy_ne.py     | 7 ++++---
 wx_factory/solvers/icwy_ne.py    | 3 ++-
 wx_factory/solvers/icwy_neiop.py | 3 ++-
 wx_factory/solvers/pmex.py       | 3 ++-
 4 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/wx_factory/solvers/cwy_ne.py b/wx_factory/solvers/cwy_ne.py
index 61d53c2..b60eb28 100644
--- a/wx_factory/solvers/cwy_ne.py
+++ b/wx_factory/solvers/cwy_ne.py
@@ -231,9 +231,9 @@ def cwy_ne(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=Fa
 
             if global_temp_vec[-1, 1] < sum_sqrt:
                 local_sum = V[j, 0:n] @ V[j, 0:n]
-                global_sum_nrm = numpy.empty_link(local_sum)
+                global_sum_nrm = numpy.empty_like(local_sum)
                 MPI.COMM_WORLD.Allreduce([local_sum, MPI.DOUBLE], [global_sum_nrm, MPI.DOUBLE])
-                nrm = math.sqrt(gloal_sum_nrm + V[j, n : n + p] @ V[j, n : n + p])
+                nrm = math.sqrt(global_sum_nrm + V[j, n : n + p] @ V[j, n : n + p])
                 reg_comm += 1
             else:
                 # compute norm estimate in quad precision
@@ -244,6 +244,8 @@ def cwy_ne(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=Fa
 
                 # nrm = math.sqrt(global_temp_vec[-1,1] - sum_sqrd)
 
+            H[0:j, j - 1] = tmp2
+
             # Happy breakdown
             if nrm < tol:
                 happy = True
@@ -251,7 +253,6 @@ def cwy_ne(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=Fa
 
             # 7. Normalize
             H[j, j - 1] = nrm
-            H[0:j, j - 1] = tmp2
             V[j, :] /= nrm
 
             krystep += 1
diff --git a/wx_factory/solvers/icwy_ne.py b/wx_factory/solvers/icwy_ne.py
index 086aeeb..e7e321d 100644
--- a/wx_factory/solvers/icwy_ne.py
+++ b/wx_factory/solvers/icwy_ne.py
@@ -197,13 +197,14 @@ def icwy_ne(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=F
 
                 # nrm = math.sqrt(global_temp[-1,1] - sum_sqrd)
 
+            H[0:j, j - 1] = tmp2
+
             # Happy breakdown
             if nrm < tol:
                 happy = True
                 break
 
             H[j, j - 1] = nrm
-            H[0:j, j - 1] = tmp2
             V[j, :] /= nrm
 
             krystep += 1
diff --git a/wx_factory/solvers/icwy_neiop.py b/wx_factory/solvers/icwy_neiop.py
index f16774d..691b834 100644
--- a/wx_factory/solvers/icwy_neiop.py
+++ b/wx_factory/solvers/icwy_neiop.py
@@ -199,13 +199,14 @@ def icwy_neiop(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task
             else:
                 nrmish = math.sqrt(global_temp[-1, 1] - sum_sqrd)
 
+            H[indx:j, j - 1] = tmp
+
             # Happy breakdown
             if nrmish < tol:
                 happy = True
                 break
 
             H[j, j - 1] = nrmish
-            H[indx:j, j - 1] = tmp
             V[j, :] /= nrmish
 
             krystep += 1
diff --git a/wx_factory/solvers/pmex.py b/wx_factory/solvers/pmex.py
index 9c7a30a..970ead7 100644
--- a/wx_factory/solvers/pmex.py
+++ b/wx_factory/solvers/pmex.py
@@ -219,6 +219,8 @@ def pmex(
                 # compute norm estimate in quad precision
                 curr_nrm = device.xp.array(device.xp.sqrt(global_vec[-1, 1] - sum_sqrd), device.xp.float64)
 
+            H[0:j, j - 1] = sol
+
             # Happy breakdown
             if curr_nrm < tol:
                 happy = True
@@ -227,7 +229,6 @@ def pmex(
             # Normalize vector and set norm to H matrix
             V[j, :] /= curr_nrm
             H[j, j - 1] = curr_nrm
-            H[0:j, j - 1] = sol
 
             krystep += 1
 
-- 
2.43.0


From f3d5ea35f7864d66215703a596889510a0f10cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:21 +0000
Subject: [PATCH 17/40] fix: exponential solvers fail when only the exponential
 itself is wanted

---
 wx_factory/solvers/cwy_1s.py     | 2 +-
 wx_factory/solvers/cwy_ne.py     | 2 +-
 wx_factory/solvers/cwy_ne1s.py   | 2 +-
 wx_factory/solvers/dcgs2.py      | 2 +-
 wx_factory/solvers/exode.py      | 2 +-
 wx_factory/solvers/icwy_1s.py    | 2 +-
 wx_factory/solvers/icwy_ne.py    | 2 +-
 wx_factory/solvers/icwy_ne1s.py  | 2 +-
 wx_factory/solvers/icwy_neiop.py | 2 +-
 wx_factory/solvers/kiops.py      | 2 +-
 wx_factory/solvers/kiops_nest.py | 2 +-
 wx_factory/solvers/pmex.py       | 2 +-
 wx_factory/solvers/pmex_1s.py    | 2 +-
 wx_factory/solvers/pmex_ne1s.py  | 2 +-
 14 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/wx_factory/solvers/cwy_1s.py b/wx_factory/solvers/cwy_1s.py
index ccf98ee..b1790b9 100644
--- a/wx_factory/solvers/cwy_1s.py
+++ b/wx_factory/solvers/cwy_1s.py
@@ -65,7 +65,7 @@ def cwy_1s(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=Fa
     if p == 0:
         p = 1
         # Add extra column of zeros
-        u = numpy.row_stack((u, numpy.zeros(len(u))))
+        u = numpy.vstack((u, numpy.zeros((1, n))))
 
     # We only allow m to vary between mmin and mmax
     m = max(mmin, min(m_init, mmax))
diff --git a/wx_factory/solvers/cwy_ne.py b/wx_factory/solvers/cwy_ne.py
index b60eb28..2349ae6 100644
--- a/wx_factory/solvers/cwy_ne.py
+++ b/wx_factory/solvers/cwy_ne.py
@@ -62,7 +62,7 @@ def cwy_ne(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=Fa
     if p == 0:
         p = 1
         # Add extra column of zeros
-        u = numpy.row_stack((u, numpy.zeros(len(u))))
+        u = numpy.vstack((u, numpy.zeros((1, n))))
 
     # We only allow m to vary between mmin and mmax
     m = max(mmin, min(m_init, mmax))
diff --git a/wx_factory/solvers/cwy_ne1s.py b/wx_factory/solvers/cwy_ne1s.py
index 2055dbc..6dbc479 100644
--- a/wx_factory/solvers/cwy_ne1s.py
+++ b/wx_factory/solvers/cwy_ne1s.py
@@ -62,7 +62,7 @@ def cwy_ne1s(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=
     if p == 0:
         p = 1
         # Add extra column of zeros
-        u = numpy.row_stack((u, numpy.zeros(len(u))))
+        u = numpy.vstack((u, numpy.zeros((1, n))))
 
     # We only allow m to vary between mmin and mmax
     m = max(mmin, min(m_init, mmax))
diff --git a/wx_factory/solvers/dcgs2.py b/wx_factory/solvers/dcgs2.py
index 98a289f..12eb36e 100644
--- a/wx_factory/solvers/dcgs2.py
+++ b/wx_factory/solvers/dcgs2.py
@@ -63,7 +63,7 @@ def dcgs2(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=Fal
     if p == 0:
         p = 1
         # Add extra column of zeros
-        u = numpy.row_stack((u, numpy.zeros(len(u))))
+        u = numpy.vstack((u, numpy.zeros((1, n))))
 
     # We only allow m to vary between mmin and mmax
     m = max(mmin, min(m_init, mmax))
diff --git a/wx_factory/solvers/exode.py b/wx_factory/solvers/exode.py
index 81f6d61..97f7b29 100644
--- a/wx_factory/solvers/exode.py
+++ b/wx_factory/solvers/exode.py
@@ -31,7 +31,7 @@ def exode(
     if p == 0:
         p = 1
         # Add extra column of zeros
-        u = numpy.row_stack((u, numpy.zeros(len(u))))
+        u = numpy.vstack((u, numpy.zeros((1, n))))
 
     y0 = u[0].copy()
 
diff --git a/wx_factory/solvers/icwy_1s.py b/wx_factory/solvers/icwy_1s.py
index a8f5793..515fb44 100644
--- a/wx_factory/solvers/icwy_1s.py
+++ b/wx_factory/solvers/icwy_1s.py
@@ -63,7 +63,7 @@ def icwy_1s(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=F
     if p == 0:
         p = 1
         # Add extra column of zeros
-        u = numpy.row_stack((u, numpy.zeros(len(u))))
+        u = numpy.vstack((u, numpy.zeros((1, n))))
 
     # We only allow m to vary between mmin and mmax
     m = max(mmin, min(m_init, mmax))
diff --git a/wx_factory/solvers/icwy_ne.py b/wx_factory/solvers/icwy_ne.py
index e7e321d..fd18158 100644
--- a/wx_factory/solvers/icwy_ne.py
+++ b/wx_factory/solvers/icwy_ne.py
@@ -62,7 +62,7 @@ def icwy_ne(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=F
     if p == 0:
         p = 1
         # Add extra column of zeros
-        u = numpy.row_stack((u, numpy.zeros(len(u))))
+        u = numpy.vstack((u, numpy.zeros((1, n))))
 
     # We only allow m to vary between mmin and mmax
     m = max(mmin, min(m_init, mmax))
diff --git a/wx_factory/solvers/icwy_ne1s.py b/wx_factory/solvers/icwy_ne1s.py
index 61f1c84..78a30d3 100644
--- a/wx_factory/solvers/icwy_ne1s.py
+++ b/wx_factory/solvers/icwy_ne1s.py
@@ -61,7 +61,7 @@ def icwy_ne1s(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1
     if p == 0:
         p = 1
         # Add extra column of zeros
-        u = numpy.row_stack((u, numpy.zeros(len(u))))
+        u = numpy.vstack((u, numpy.zeros((1, n))))
 
     # We only allow m to vary between mmin and mmax
     m = max(mmin, min(m_init, mmax))
diff --git a/wx_factory/solvers/icwy_neiop.py b/wx_factory/solvers/icwy_neiop.py
index 691b834..cdc6267 100644
--- a/wx_factory/solvers/icwy_neiop.py
+++ b/wx_factory/solvers/icwy_neiop.py
@@ -62,7 +62,7 @@ def icwy_neiop(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task
     if p == 0:
         p = 1
         # Add extra column of zeros
-        u = numpy.row_stack((u, numpy.zeros(len(u))))
+        u = numpy.vstack((u, numpy.zeros((1, n))))
 
     # We only allow m to vary between mmin and mmax
     m = max(mmin, min(m_init, mmax))
diff --git a/wx_factory/solvers/kiops.py b/wx_factory/solvers/kiops.py
index 3fa344d..dc88209 100644
--- a/wx_factory/solvers/kiops.py
+++ b/wx_factory/solvers/kiops.py
@@ -80,7 +80,7 @@ def kiops(
     if p == 0:
         p = 1
         # Add extra column of zeros
-        u = xp.row_stack((u, xp.zeros(len(u))))
+        u = xp.vstack((u, xp.zeros((1, n))))
 
     # We only allow m to vary between mmin and mmax
     m = max(mmin, min(m_init, mmax))
diff --git a/wx_factory/solvers/kiops_nest.py b/wx_factory/solvers/kiops_nest.py
index 1caee69..7079625 100644
--- a/wx_factory/solvers/kiops_nest.py
+++ b/wx_factory/solvers/kiops_nest.py
@@ -63,7 +63,7 @@ def kiops_nest(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task
     if p == 0:
         p = 1
         # Add extra column of zeros
-        u = numpy.row_stack((u, numpy.zeros(len(u))))
+        u = numpy.vstack((u, numpy.zeros((1, n))))
 
     # We only allow m to vary between mmin and mmax
     m = max(mmin, min(m_init, mmax))
diff --git a/wx_factory/solvers/pmex.py b/wx_factory/solvers/pmex.py
index 970ead7..2254e33 100644
--- a/wx_factory/solvers/pmex.py
+++ b/wx_factory/solvers/pmex.py
@@ -53,7 +53,7 @@ def pmex(
     if p == 0:
         p = 1
         # Add extra column of zeros
-        u = device.xp.row_stack((u, device.xp.zeros(len(u))))
+        u = device.xp.vstack((u, device.xp.zeros((1, n))))
 
     step = 0
     krystep = 0
diff --git a/wx_factory/solvers/pmex_1s.py b/wx_factory/solvers/pmex_1s.py
index 8456cc1..9880732 100644
--- a/wx_factory/solvers/pmex_1s.py
+++ b/wx_factory/solvers/pmex_1s.py
@@ -19,7 +19,7 @@ def pmex_1s(τ_out, A, u, tol=1e-7, delta=1.2, m_init=10, mmin=10, mmax=128, reu
     if p == 0:
         p = 1
         # Add extra column of zeros
-        u = numpy.row_stack((u, numpy.zeros(len(u))))
+        u = numpy.vstack((u, numpy.zeros((1, n))))
 
     step = 0
     krystep = 0
diff --git a/wx_factory/solvers/pmex_ne1s.py b/wx_factory/solvers/pmex_ne1s.py
index d1065e6..837bbd3 100644
--- a/wx_factory/solvers/pmex_ne1s.py
+++ b/wx_factory/solvers/pmex_ne1s.py
@@ -17,7 +17,7 @@ def pmex_ne1s(τ_out, A, u, tol=1e-7, delta=1.2, m_init=10, mmin=10, mmax=128, r
     if p == 0:
         p = 1
         # Add extra column of zeros
-        u = numpy.row_stack((u, numpy.zeros(len(u))))
+        u = numpy.vstack((u, numpy.zeros((1, n))))
 
     step = 0
     krystep = 0
-- 
2.43.0


From 891ffac013a98dedb7cc53cad65090aca789e7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:21 +0000
Subject: [PATCH 18/40] fix: exponential solvers: rounding of the substeps may
 lead past the last output time

---
 wx_factory/solvers/cwy_1s.py     | 2 +-
 wx_factory/solvers/cwy_ne.py     | 2 +-
 wx_factory/solvers/cwy_ne1s.py   | 2 +-
 wx_factory/solvers/dcgs2.py      | 2 +-
 wx_factory/solvers/icwy_1s.py    | 2 +-
 wx_factory/solvers/icwy_ne.py    | 2 +-
 wx_factory/solvers/icwy_ne1s.py  | 2 +-
 wx_factory/solvers/icwy_neiop.py | 2 +-
 wx_factory/solvers/kiops.py      | 2 +-
 wx_factory/solvers/kiops_nest.py | 2 +-
 wx_factory/solvers/pmex.py       | 2 +-
 wx_factory/solvers/pmex_1s.py    | 2 +-
 wx_factory/solvers/pmex_ne1s.py  | 2 +-
 13 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/wx_factory/solvers/cwy_1s.py b/wx_factory/solvers/cwy_1s.py
index b1790b9..10c785b 100644
--- a/wx_factory/solvers/cwy_1s.py
+++ b/wx_factory/solvers/cwy_1s.py
@@ -326,7 +326,7 @@ def cwy_1s(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=Fa
             # Udate for τ_out in the interval (τ_now, τ_now + τ)
             blownTs = 0
             nextT = τ_now + τ
-            for k in range(l, numSteps):
+            for k in range(l, numSteps - 1):
                 if abs(τ_out[k]) < abs(nextT):
                     blownTs += 1
 
diff --git a/wx_factory/solvers/cwy_ne.py b/wx_factory/solvers/cwy_ne.py
index 2349ae6..112ae50 100644
--- a/wx_factory/solvers/cwy_ne.py
+++ b/wx_factory/solvers/cwy_ne.py
@@ -349,7 +349,7 @@ def cwy_ne(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=Fa
             # Udate for τ_out in the interval (τ_now, τ_now + τ)
             blownTs = 0
             nextT = τ_now + τ
-            for k in range(l, numSteps):
+            for k in range(l, numSteps - 1):
                 if abs(τ_out[k]) < abs(nextT):
                     blownTs += 1
 
diff --git a/wx_factory/solvers/cwy_ne1s.py b/wx_factory/solvers/cwy_ne1s.py
index 6dbc479..ec8a68a 100644
--- a/wx_factory/solvers/cwy_ne1s.py
+++ b/wx_factory/solvers/cwy_ne1s.py
@@ -347,7 +347,7 @@ def cwy_ne1s(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=
             # Udate for τ_out in the interval (τ_now, τ_now + τ)
             blownTs = 0
             nextT = τ_now + τ
-            for k in range(l, numSteps):
+            for k in range(l, numSteps - 1):
                 if abs(τ_out[k]) < abs(nextT):
                     blownTs += 1
 
diff --git a/wx_factory/solvers/dcgs2.py b/wx_factory/solvers/dcgs2.py
index 12eb36e..995529e 100644
--- a/wx_factory/solvers/dcgs2.py
+++ b/wx_factory/solvers/dcgs2.py
@@ -352,7 +352,7 @@ def dcgs2(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=Fal
             # Udate for τ_out in the interval (τ_now, τ_now + τ)
             blownTs = 0
             nextT = τ_now + τ
-            for k in range(l, numSteps):
+            for k in range(l, numSteps - 1):
                 if abs(τ_out[k]) < abs(nextT):
                     blownTs += 1
 
diff --git a/wx_factory/solvers/icwy_1s.py b/wx_factory/solvers/icwy_1s.py
index 515fb44..60d5282 100644
--- a/wx_factory/solvers/icwy_1s.py
+++ b/wx_factory/solvers/icwy_1s.py
@@ -324,7 +324,7 @@ def icwy_1s(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=F
             # Udate for τ_out in the interval (τ_now, τ_now + τ)
             blownTs = 0
             nextT = τ_now + τ
-            for k in range(l, numSteps):
+            for k in range(l, numSteps - 1):
                 if abs(τ_out[k]) < abs(nextT):
                     blownTs += 1
 
diff --git a/wx_factory/solvers/icwy_ne.py b/wx_factory/solvers/icwy_ne.py
index fd18158..4dc0919 100644
--- a/wx_factory/solvers/icwy_ne.py
+++ b/wx_factory/solvers/icwy_ne.py
@@ -300,7 +300,7 @@ def icwy_ne(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=F
             # Udate for τ_out in the interval (τ_now, τ_now + τ)
             blownTs = 0
             nextT = τ_now + τ
-            for k in range(l, numSteps):
+            for k in range(l, numSteps - 1):
                 if abs(τ_out[k]) < abs(nextT):
                     blownTs += 1
 
diff --git a/wx_factory/solvers/icwy_ne1s.py b/wx_factory/solvers/icwy_ne1s.py
index 78a30d3..f1ab306 100644
--- a/wx_factory/solvers/icwy_ne1s.py
+++ b/wx_factory/solvers/icwy_ne1s.py
@@ -354,7 +354,7 @@ def icwy_ne1s(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1
             # Udate for τ_out in the interval (τ_now, τ_now + τ)
             blownTs = 0
             nextT = τ_now + τ
-            for k in range(l, numSteps):
+            for k in range(l, numSteps - 1):
                 if abs(τ_out[k]) < abs(nextT):
                     blownTs += 1
 
diff --git a/wx_factory/solvers/icwy_neiop.py b/wx_factory/solvers/icwy_neiop.py
index cdc6267..142d409 100644
--- a/wx_factory/solvers/icwy_neiop.py
+++ b/wx_factory/solvers/icwy_neiop.py
@@ -303,7 +303,7 @@ def icwy_neiop(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task
             # Udate for τ_out in the interval (τ_now, τ_now + τ)
             blownTs = 0
             nextT = τ_now + τ
-            for k in range(l, numSteps):
+            for k in range(l, numSteps - 1):
                 if abs(τ_out[k]) < abs(nextT):
                     blownTs += 1
 
diff --git a/wx_factory/solvers/kiops.py b/wx_factory/solvers/kiops.py
index dc88209..e8b9ce6 100644
--- a/wx_factory/solvers/kiops.py
+++ b/wx_factory/solvers/kiops.py
@@ -297,7 +297,7 @@ def kiops(
             # Update for tau_out in the interval (tau_now, tau_now + tau)
             blownTs = 0
             nextT = tau_now + tau
-            for k in range(l, numSteps):
+            for k in range(l, numSteps - 1):
                 if xp.abs(tau_out[k]) < xp.abs(nextT):
                     blownTs += 1
 
diff --git a/wx_factory/solvers/kiops_nest.py b/wx_factory/solvers/kiops_nest.py
index 7079625..515f58f 100644
--- a/wx_factory/solvers/kiops_nest.py
+++ b/wx_factory/solvers/kiops_nest.py
@@ -310,7 +310,7 @@ def kiops_nest(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task
             # Udate for τ_out in the interval (τ_now, τ_now + τ)
             blownTs = 0
             nextT = τ_now + τ
-            for k in range(l, numSteps):
+            for k in range(l, numSteps - 1):
                 if abs(τ_out[k]) < abs(nextT):
                     blownTs += 1
 
diff --git a/wx_factory/solvers/pmex.py b/wx_factory/solvers/pmex.py
index 2254e33..4e0fc60 100644
--- a/wx_factory/solvers/pmex.py
+++ b/wx_factory/solvers/pmex.py
@@ -324,7 +324,7 @@ def pmex(
             # Udate for tau_out in the interval (tau_now, tau_now + tau)
             blownTs = 0
             nextT = tau_now + tau
-            for k in range(l, numSteps):
+            for k in range(l, numSteps - 1):
                 if abs(tau_out[k]) < abs(nextT):
                     blownTs += 1
 
diff --git a/wx_factory/solvers/pmex_1s.py b/wx_factory/solvers/pmex_1s.py
index 9880732..b6b8b7e 100644
--- a/wx_factory/solvers/pmex_1s.py
+++ b/wx_factory/solvers/pmex_1s.py
@@ -327,7 +327,7 @@ def pmex_1s(τ_out, A, u, tol=1e-7, delta=1.2, m_init=10, mmin=10, mmax=128, reu
             # Udate for τ_out in the interval (τ_now, τ_now + τ)
             blownTs = 0
             nextT = τ_now + τ
-            for k in range(l, numSteps):
+            for k in range(l, numSteps - 1):
                 if abs(τ_out[k]) < abs(nextT):
                     blownTs += 1
 
diff --git a/wx_factory/solvers/pmex_ne1s.py b/wx_factory/solvers/pmex_ne1s.py
index 837bbd3..dc5ab37 100644
--- a/wx_factory/solvers/pmex_ne1s.py
+++ b/wx_factory/solvers/pmex_ne1s.py
@@ -341,7 +341,7 @@ def pmex_ne1s(τ_out, A, u, tol=1e-7, delta=1.2, m_init=10, mmin=10, mmax=128, r
             # Udate for τ_out in the interval (τ_now, τ_now + τ)
             blownTs = 0
             nextT = τ_now + τ
-            for k in range(l, numSteps):
+            for k in range(l, numSteps - 1):
                 if abs(τ_out[k]) < abs(nextT):
                     blownTs += 1
 
-- 
2.43.0


From 5c137627730b7e79b1ff17daacf0272b6529cbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:21 +0000
Subject: [PATCH 19/40] fix: DP5(4) cannot be used: its matrix lacks a column

---
 wx_factory/integrators/butcher.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/wx_factory/integrators/butcher.py b/wx_factory/integrators/butcher.py
index 382240d..f2f5058 100644
--- a/wx_factory/integrators/butcher.py
+++ b/wx_factory/integrators/butcher.py
@@ -151,12 +151,12 @@ class DP54(RungeKutta):
     C = numpy.array([0, 1 / 5, 3 / 10, 4 / 5, 8 / 9, 1])
     A = numpy.array(
         [
-            [0, 0, 0, 0, 0],
-            [1 / 5, 0, 0, 0, 0],
-            [3 / 40, 9 / 40, 0, 0, 0],
-            [44 / 45, -56 / 15, 32 / 9, 0, 0],
-            [19372 / 6561, -25360 / 2187, 64448 / 6561, -212 / 729, 0],
-            [9017 / 3168, -355 / 33, 46732 / 5247, 49 / 176, -5103 / 18656],
+            [0, 0, 0, 0, 0, 0],
+            [1 / 5, 0, 0, 0, 0, 0],
+            [3 / 40, 9 / 40, 0, 0, 0, 0],
+            [44 / 45, -56 / 15, 32 / 9, 0, 0, 0],
+            [19372 / 6561, -25360 / 2187, 64448 / 6561, -212 / 729, 0, 0],
+            [9017 / 3168, -355 / 33, 46732 / 5247, 49 / 176, -5103 / 18656, 0],
         ]
     )
     B = numpy.array([35 / 384, 0, 500 / 1113, 125 / 192, -2187 / 6784, 11 / 84])
-- 
2.43.0


From 754106e698d9b6e8b7bf7bdc9a68e80436f8ec5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:21 +0000
Subject: [PATCH 20/40] fix: non-FSAL Runge-Kutta schemes evaluate the new
 derivative one step too late

---
 wx_factory/integrators/explicit_runge_kutta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wx_factory/integrators/explicit_runge_kutta.py b/wx_factory/integrators/explicit_runge_kutta.py
index 1f8002e..7c7434a 100644
--- a/wx_factory/integrators/explicit_runge_kutta.py
+++ b/wx_factory/integrators/explicit_runge_kutta.py
@@ -419,7 +419,7 @@ class RungeKutta:
 
         if not self.FSAL:
             # evaluate output point for the next step
-            self.K[self.n_stages] = self.fun(t + h, y_new)
+            self.K[self.n_stages] = self.fun(t_new, y_new)
 
         # store for next step, interpolation and stepsize control
         self.y_old = y
-- 
2.43.0


From 4d62e3f3447e57b567942abdc1899921133c37bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:21 +0000
Subject: [PATCH 21/40] fix: stiff EPI schemes use nodes of the wrong sign and
 lose their order

---
 wx_factory/integrators/epi_stiff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wx_factory/integrators/epi_stiff.py b/wx_factory/integrators/epi_stiff.py
index f6eb23f..2946096 100644
--- a/wx_factory/integrators/epi_stiff.py
+++ b/wx_factory/integrators/epi_stiff.py
@@ -24,7 +24,7 @@ class EpiStiff(Integrator):
 
         if order < 2:
             raise ValueError("Unsupported order for EPI method")
-        self.A = alpha_coeff([-i for i in range(-1, 1 - order, -1)])
+        self.A = alpha_coeff(list(range(-1, 1 - order, -1)))
 
         m, self.n_prev = self.A.shape
 
-- 
2.43.0


From 9ef22359262193ff30c7a0485ff6d6b901134d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:21 +0000
Subject: [PATCH 22/40] fix: BDF2 starts with half a step and keeps its history
 when the step changes

---
 wx_factory/integrators/bdf2.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/wx_factory/integrators/bdf2.py b/wx_factory/integrators/bdf2.py
index fa9b458..499c80b 100644
--- a/wx_factory/integrators/bdf2.py
+++ b/wx_factory/integrators/bdf2.py
@@ -12,15 +12,22 @@ class Bdf2(Integrator):
         self.tol = param.tolerance
         self.init_substeps = init_substeps
         self.Qprev = None
+        self.dt = 0.0
 
     def __step__(self, Q, dt):
         t0 = time()
+
+        # The formula is for constant steps: if dt changes, discard saved value and redo initialization
+        if self.dt and abs(self.dt - dt) > 1e-10:
+            self.Qprev = None
+        self.dt = dt
+
         if self.Qprev is None:
             # Initialize with the backward Euler method
             newQ = Q.copy()
             for _ in range(self.init_substeps):
                 init_dt = dt / self.init_substeps
-                nonlin_fun = lambda Q_plus: (Q_plus - newQ) / init_dt - 0.5 * self.rhs(Q_plus)
+                nonlin_fun = lambda Q_plus: (Q_plus - newQ) / init_dt - self.rhs(Q_plus)
 
                 newQ, num_iter, residuals = newton_krylov(nonlin_fun, newQ, f_tol=self.tol)
         else:
-- 
2.43.0


From 643b0329726c28e5a0646b90a7a4c483e98f854d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:21 +0000
Subject: [PATCH 23/40] fix: Newton-Krylov fails without a tolerance
 (numpy.float_ no longer exists)

---
 wx_factory/solvers/nonlin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wx_factory/solvers/nonlin.py b/wx_factory/solvers/nonlin.py
index f8a408f..bcfb5f7 100644
--- a/wx_factory/solvers/nonlin.py
+++ b/wx_factory/solvers/nonlin.py
@@ -33,7 +33,7 @@ def newton_krylov(
     eta = 1e-3
 
     if f_tol is None:
-        f_tol = numpy.finfo(numpy.float_).eps ** (1.0 / 3)
+        f_tol = numpy.finfo(numpy.float64).eps ** (1.0 / 3)
     if f_rtol is None:
         f_rtol = numpy.inf
     if x_tol is None:
-- 
2.43.0


From 32071d595ac8f8ce638f4897ea99725eb359a0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:18 +0000
Subject: [PATCH 24/40] fix: operators cannot be built with 7 points per
 direction (round-off in the differentiation matrix)

---
 wx_factory/geometry/operators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wx_factory/geometry/operators.py b/wx_factory/geometry/operators.py
index e939154..87c6155 100644
--- a/wx_factory/geometry/operators.py
+++ b/wx_factory/geometry/operators.py
@@ -85,6 +85,7 @@ class DFROperators:
 
         diff = diffmat(grd.extension_sym)
         diff = xp.asarray(diff)
+        diff[xp.abs(diff) < 1e-20] = 0.0
 
         if param.filter_apply:
             self.V = vandermonde(grd.extension)
-- 
2.43.0


From 8fcf637391c558d0a4cc3a060ff56c4e9ed69530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:18 +0000
Subject: [PATCH 25/40] fix: applying the sponge fails on a Cartesian2D
 geometry

---
 wx_factory/geometry/operators.py | 34 +++++++++++---------------------
 1 file changed, 11 insertions(+), 23 deletions(-)

diff --git a/wx_factory/geometry/operators.py b/wx_factory/geometry/operators.py
index 87c6155..177671d 100644
--- a/wx_factory/geometry/operators.py
+++ b/wx_factory/geometry/operators.py
@@ -124,19 +124,13 @@ class DFROperators:
         if param.apply_sponge:
             if not isinstance(grd, Cartesian2D):
                 raise TypeError(f"The sponge can only be applied on a Cartesian2D geometry")
-            nk, ni = grd.X1.shape
             zs = param.z1 - param.sponge_zscale  # zs is bottom of layer
-            self.beta = xp.zeros_like(grd.X1)  # used as our damping profile
-            # Loop over points
-            # TODO use implicit loop (will also work with CUDA)
-            for k in range(nk):
-                for i in range(ni):
-                    if grd.X3[k, i] >= zs:
-                        self.beta[k, i] = (
-                            self.beta[k, i]
-                            + (1.0 / param.sponge_tscale)
-                            * xp.sin((0.5 * xp.pi) * (grd.X3[k, i] - zs) / (param.z1 - zs)) ** 2
-                        )
+            # used as our damping profile
+            self.beta = xp.where(
+                grd.X3 >= zs,
+                (1.0 / param.sponge_tscale) * xp.sin((0.5 * xp.pi) * (grd.X3 - zs) / (param.z1 - zs)) ** 2,
+                0.0,
+            )
 
         if check_skewcentrosymmetry(self.diff_ext) is False:
             raise ValueError("Something horribly wrong has happened in the creation of the differentiation matrix")
@@ -241,17 +235,11 @@ class DFROperators:
 
         # Apply Sponge (if desired)
         if self.apply_sponge:
-            nk, ni = geom.X1.shape
-            # Loop over points
-            # TODO use implicit loop (will also work with CUDA)
-            for k in range(nk):
-                for i in range(ni):
-                    # !!!!!!!!
-                    # !!! Important Note:
-                    #     TODO: For 3D, we want to rotate radially, apply sponge, rotate back
-                    # !!!!!!!!
-                    ww = (1.0 / (1.0 + self.beta[k, i] * dt)) * Q[idx_2d_rho_w, k, i]
-                    Q[idx_2d_rho_w, k, i] = ww
+            # !!!!!!!!
+            # !!! Important Note:
+            #     TODO: For 3D, we want to rotate radially, apply sponge, rotate back
+            # !!!!!!!!
+            Q[idx_2d_rho_w] *= 1.0 / (1.0 + self.beta * dt)
 
         return Q
 
-- 
2.43.0


From 2234d22d0eed121b6155ededf5c6ca70b491e55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:46 +0000
Subject: [PATCH 26/40] fix: AUSM fluxes of the Cartesian Euler equations lack
 the advection of normal momentum

---
 wx_factory/pde/kernels/riemann_flux.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wx_factory/pde/kernels/riemann_flux.hpp b/wx_factory/pde/kernels/riemann_flux.hpp
index cf7d5c3..6e31178 100644
--- a/wx_factory/pde/kernels/riemann_flux.hpp
+++ b/wx_factory/pde/kernels/riemann_flux.hpp
@@ -62,13 +62,13 @@ DEVICE_SPACE void riemann_eulercartesian_ausm_2d_kernel(
   *params_l.flux[dir].rho = rhol * Mmax + rhor * Mmin;
   if (dir == 0)
   {
-    *params_l.flux[dir].rho_u = 0.5 * (Ml * pl - Mr * pr);
+    *params_l.flux[dir].rho_u = rho_ul * Mmax + rho_ur * Mmin + 0.5 * (Ml * pl - Mr * pr);
     *params_l.flux[dir].rho_w = rho_wl * Mmax + rho_wr * Mmin;
   }
   else
   {
     *params_l.flux[dir].rho_u = rho_ul * Mmax + rho_ur * Mmin;
-    *params_l.flux[dir].rho_w = 0.5 * (Ml * pl - Mr * pr);
+    *params_l.flux[dir].rho_w = rho_wl * Mmax + rho_wr * Mmin + 0.5 * (Ml * pl - Mr * pr);
   }
   *params_l.flux[dir].rho_theta = rho_thetal * Mmax + rho_thetar * Mmin;
 
-- 
2.43.0


From 53c845a916b1c9086606d80c2ee74b57da0a1bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:45 +0000
Subject: [PATCH 27/40] fix: slopes of the terrain at panel edges use a wrong
 cross term of the inverse metric

---
 wx_factory/geometry/metric3d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wx_factory/geometry/metric3d.py b/wx_factory/geometry/metric3d.py
index 66e9d7d..008ca80 100644
--- a/wx_factory/geometry/metric3d.py
+++ b/wx_factory/geometry/metric3d.py
@@ -215,7 +215,7 @@ class Metric3DTopo:
         ):
             delta2 = 1 + X**2 + Y**2
             metric_contra[0, 0, :, :, :] = delta2 / (1 + X**2)
-            metric_contra[0, 1, :, :, :] = delta2 * X * Y / ((1 + X**2) + (1 + Y**2))
+            metric_contra[0, 1, :, :, :] = delta2 * X * Y / ((1 + X**2) * (1 + Y**2))
             metric_contra[1, 0, :, :, :] = metric_contra[0, 1, :, :, :]
             metric_contra[1, 1, :, :, :] = delta2 / (1 + Y**2)
 
-- 
2.43.0


From a26ab9029ff605bc32213681ea44b21f4f33bf02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:47 +0000
Subject: [PATCH 28/40] fix: vertical structure of the acoustic wave (case 77)
 uses the horizontal distance

---
 wx_factory/init/dcmip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wx_factory/init/dcmip.py b/wx_factory/init/dcmip.py
index ccb8cb7..9852b89 100644
--- a/wx_factory/init/dcmip.py
+++ b/wx_factory/init/dcmip.py
@@ -943,7 +943,7 @@ def acoustic_wave(geom: CubedSphere3D, metric: Metric3DTopo):
     lon = geom.polar[0, ...]
     r = re * xp.arccos(xp.cos(lat) * xp.cos(lon))
     f = numpy.where(r > rc, 0.0, (Δp / 2) * (1 + numpy.cos((math.pi * r) / rc)))
-    g = numpy.sin((eta_v * math.pi * r) / ztop)
+    g = numpy.sin((eta_v * math.pi * geom.height_new) / ztop)
     p_perturb = f * g
     pressure = p_mean + p_perturb
     # pdb.set_trace()
-- 
2.43.0


From 2a317000a871a2c13a782cc6faf226c307134f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:47 +0000
Subject: [PATCH 29/40] fix: Cartesian cases 1 and 3 cannot be initialized

---
 wx_factory/init/initialize.py | 25 ++++++-------------------
 1 file changed, 6 insertions(+), 19 deletions(-)

diff --git a/wx_factory/init/initialize.py b/wx_factory/init/initialize.py
index df2e009..fb80866 100644
--- a/wx_factory/init/initialize.py
+++ b/wx_factory/init/initialize.py
@@ -234,11 +234,8 @@ def initialize_cartesian2d(geom: Cartesian2D, param: Configuration) -> NDArray[n
 
         pert = 0.5
 
-        for k in range(nk):
-            for i in range(ni):
-                r = (geom.X1[k, i] - xc) ** 2 + (geom.X3[k, i] - zc) ** 2
-                if r < param.bubble_rad**2:
-                    θ[k, i] += pert
+        r = (geom.X1 - xc) ** 2 + (geom.X3 - zc) ** 2
+        θ = xp.where(r < param.bubble_rad**2, θ + pert, θ)
 
     elif param.case_number == 2:
         # Gaussian bubble
@@ -272,26 +269,16 @@ def initialize_cartesian2d(geom: Cartesian2D, param: Configuration) -> NDArray[n
         s = 50
         x0 = 500
         z0 = 300
-        for k in range(nk):
-            for i in range(ni):
-                r = xp.sqrt((geom.X1[k, i] - x0) ** 2 + (geom.X3[k, i] - z0) ** 2)
-                if r <= a:
-                    θ[k, i] += A
-                else:
-                    θ[k, i] += A * xp.exp(-(((r - a) / s) ** 2))
+        r = xp.sqrt((geom.X1 - x0) ** 2 + (geom.X3 - z0) ** 2)
+        θ = xp.where(r <= a, θ + A, θ + A * xp.exp(-(((r - a) / s) ** 2)))
 
         A = -0.15
         a = 0
         s = 50
         x0 = 560
         z0 = 640
-        for k in range(nk):
-            for i in range(ni):
-                r = xp.sqrt((geom.X1[k, i] - x0) ** 2 + (geom.X3[k, i] - z0) ** 2)
-                if r <= a:
-                    θ[k, i] += A
-                else:
-                    θ[k, i] += A * xp.exp(-(((r - a) / s) ** 2))
+        r = xp.sqrt((geom.X1 - x0) ** 2 + (geom.X3 - z0) ** 2)
+        θ = xp.where(r <= a, θ + A, θ + A * xp.exp(-(((r - a) / s) ** 2)))
 
     elif param.case_number == 4:
         # Cold density current
-- 
2.43.0


From 3d318197a19c2a964547f65b1771188427fcc3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:47 +0000
Subject: [PATCH 30/40] fix: timings of the RHS are stored again with every
 later step

---
 wx_factory/integrators/integrator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wx_factory/integrators/integrator.py b/wx_factory/integrators/integrator.py
index bc036b1..222b1b0 100644
--- a/wx_factory/integrators/integrator.py
+++ b/wx_factory/integrators/integrator.py
@@ -105,6 +105,9 @@ class Integrator(ABC):
                 t1 - t0, self.sim_time, dt, solver_info, self.preconditioner, rhs_times
             )
 
+            if rhs_times is not None:
+                self.rhs.clear_timings()  # They have been stored with this step, not to be stored again
+
         self.solver_info = None
 
         self.sim_time += dt
-- 
2.43.0


From 2e7ecb62973ee69d02878ff33d2598783d0e6033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:47 +0000
Subject: [PATCH 31/40] fix: kernels can only be compiled from the root
 directory of the project

---
 wx_factory/compiler/compile_kernels.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wx_factory/compiler/compile_kernels.py b/wx_factory/compiler/compile_kernels.py
index f8b7b47..157ffcc 100644
--- a/wx_factory/compiler/compile_kernels.py
+++ b/wx_factory/compiler/compile_kernels.py
@@ -78,12 +78,12 @@ class WxExtension(Extension):
 
     def __init__(self, name, backend, suffix, build_ext_class, **kwargs):
 
-        source_dir = os.path.join(base_module_dir, name)
-        source_files = glob(source_dir + f"/**/*.{suffix}", root_dir=main_project_dir, recursive=True)
+        source_dir = os.path.join(main_project_dir, base_module_dir, name)
+        source_files = glob(source_dir + f"/**/*.{suffix}", recursive=True)
         include_dirs = [pybind11.get_include()]
         header_files = list(
             itertools.chain.from_iterable(
-                glob(source_dir + f"/**/*.{s}", root_dir=main_project_dir, recursive=True) for s in ["h", "hpp"]
+                glob(source_dir + f"/**/*.{s}", recursive=True) for s in ["h", "hpp"]
             )
         )
 
-- 
2.43.0


From a852c391328a95bfa7982dfd85f052b6cdf6275a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:47 +0000
Subject: [PATCH 32/40] fix: a simulation whose integrator failed ends as if it
 had succeeded

---
 wx_factory/simulation/simulation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wx_factory/simulation/simulation.py b/wx_factory/simulation/simulation.py
index 0465ec6..ca35a87 100644
--- a/wx_factory/simulation/simulation.py
+++ b/wx_factory/simulation/simulation.py
@@ -189,6 +189,9 @@ class Simulation:
         while self.step():
             pass  # Step until everything is done
 
+        if self.integrator.failure_flag != 0:
+            raise RuntimeError(f"The time integrator failed at step {self.step_id}, stopping the simulation")
+
         self.output.finalize(time() - start_time)  # Close any open output file
 
     def _make_device(self) -> Device:
-- 
2.43.0


From 6643d3e8baaf385fe7be45c222f59443f16bac18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:47 +0000
Subject: [PATCH 33/40] fix: stiff problems fail on one process, or lose points
 when they cannot be shared evenly

---
 wx_factory/stiff_pdes/JTV.py       | 128 ++++++++++++++---------------
 wx_factory/stiff_pdes/initWorld.py |   5 ++
 2 files changed, 68 insertions(+), 65 deletions(-)

diff --git a/wx_factory/stiff_pdes/JTV.py b/wx_factory/stiff_pdes/JTV.py
index 7044606..f192d5d 100644
--- a/wx_factory/stiff_pdes/JTV.py
+++ b/wx_factory/stiff_pdes/JTV.py
@@ -257,6 +257,14 @@ def getNeighData(vec, world, topData, bottomData, leftData, rightData):
 
 def getExtraPeriodicData(vec, world, topData, bottomData, leftData, rightData):
 
+    if world.size == 1:  # This process is its own neighbour on every side
+        values = vec.reshape(world.numPointsY, world.numPointsX)
+        topData[:] = values[0, :]
+        bottomData[:] = values[-1, :]
+        leftData[:] = values[:, -1]
+        rightData[:] = values[:, 0]
+        return topData, bottomData, leftData, rightData
+
     # sending top neighboor data
     sendPerData(vec, "top", world)
     recievePerData("top", world, topData)
@@ -490,23 +498,21 @@ def nonLinLapPeriodic(vec, u, epsilon, world):
     jacleftData = np.zeros(world.numPointsX)
     jacrightData = np.zeros(world.numPointsX)
 
-    if world.size > 1:
+    [TopNeighData, BottomNeighData, LeftNeighData, RightNeighData] = getNeighData(
+        vec, world, topData, bottomData, leftData, rightData
+    )
 
-        [TopNeighData, BottomNeighData, LeftNeighData, RightNeighData] = getNeighData(
-            vec, world, topData, bottomData, leftData, rightData
-        )
-
-        [TopNeighData, BottomNeighData, LeftNeighData, RightNeighData] = getExtraPeriodicData(
-            vec, world, topData, bottomData, leftData, rightData
-        )
+    [TopNeighData, BottomNeighData, LeftNeighData, RightNeighData] = getExtraPeriodicData(
+        vec, world, topData, bottomData, leftData, rightData
+    )
 
-        [JacUTopData, JacUBotData, JacULeftData, JacURightData] = getNeighData(
-            u, world, jactopData, jacbottomData, jacleftData, jacrightData
-        )
+    [JacUTopData, JacUBotData, JacULeftData, JacURightData] = getNeighData(
+        u, world, jactopData, jacbottomData, jacleftData, jacrightData
+    )
 
-        [JacUTopData, JacUBotData, JacULeftData, JacURightData] = getExtraPeriodicData(
-            u, world, jactopData, jacbottomData, jacleftData, jacrightData
-        )
+    [JacUTopData, JacUBotData, JacULeftData, JacURightData] = getExtraPeriodicData(
+        u, world, jactopData, jacbottomData, jacleftData, jacrightData
+    )
 
     # 2. matrix free application of matrix times vector
     N = world.numPointsX
@@ -566,15 +572,13 @@ def laplacianPeriodic(vec, epsilon, world):
     leftData = np.zeros(world.numPointsX)
     rightData = np.zeros(world.numPointsX)
 
-    if world.size > 1:
+    [TopNeighData, BottomNeighData, LeftNeighData, RightNeighData] = getNeighData(
+        vec, world, topData, bottomData, leftData, rightData
+    )
 
-        [TopNeighData, BottomNeighData, LeftNeighData, RightNeighData] = getNeighData(
-            vec, world, topData, bottomData, leftData, rightData
-        )
-
-        [TopNeighData, BottomNeighData, LeftNeighData, RightNeighData] = getExtraPeriodicData(
-            vec, world, topData, bottomData, leftData, rightData
-        )
+    [TopNeighData, BottomNeighData, LeftNeighData, RightNeighData] = getExtraPeriodicData(
+        vec, world, topData, bottomData, leftData, rightData
+    )
 
     # 2. matrix free application of matrix times vector
     for j in range(0, world.numPointsY):  # depth of processor
@@ -629,15 +633,13 @@ def laplacianUsquared(vec, world):
     leftData = np.zeros(world.numPointsX)
     rightData = np.zeros(world.numPointsX)
 
-    if world.size > 1:
+    [TopNeighData, BottomNeighData, LeftNeighData, RightNeighData] = getNeighData(
+        vec, world, topData, bottomData, leftData, rightData
+    )
 
-        [TopNeighData, BottomNeighData, LeftNeighData, RightNeighData] = getNeighData(
-            vec, world, topData, bottomData, leftData, rightData
-        )
-
-        [TopNeighData, BottomNeighData, LeftNeighData, RightNeighData] = getExtraPeriodicData(
-            vec, world, topData, bottomData, leftData, rightData
-        )
+    [TopNeighData, BottomNeighData, LeftNeighData, RightNeighData] = getExtraPeriodicData(
+        vec, world, topData, bottomData, leftData, rightData
+    )
 
     # 2. compute stencil
     N = world.numPointsX
@@ -750,7 +752,7 @@ def advectionDirichlet(vec, alpha, world):
 
                 # if rank == size-1, then need top boundary condition
                 # if world.rank == world.size-1:
-                if world.procYID == world.procs_per_yaxis - 1 and world.size - 1 != 0:
+                if world.procYID == world.procs_per_yaxis - 1:
                     # current_val += world.TopBoundaryCond[i] + vec[indx - world.numPointsXnoBC]
                     current_val += -vec[indx - world.numPointsX]
 
@@ -870,14 +872,13 @@ def advectionPeriodic(vec, alpha, world):
     leftData = np.zeros(world.numPointsX)
     rightData = np.zeros(world.numPointsX)
 
-    if world.size > 1:
-        [TopNeighData, BottomNeighData, LeftNeighData, RightNeighData] = getNeighData(
-            vec, world, topData, bottomData, leftData, rightData
-        )
+    [TopNeighData, BottomNeighData, LeftNeighData, RightNeighData] = getNeighData(
+        vec, world, topData, bottomData, leftData, rightData
+    )
 
-        [TopNeighData, BottomNeighData, LeftNeighData, RightNeighData] = getExtraPeriodicData(
-            vec, world, topData, bottomData, leftData, rightData
-        )
+    [TopNeighData, BottomNeighData, LeftNeighData, RightNeighData] = getExtraPeriodicData(
+        vec, world, topData, bottomData, leftData, rightData
+    )
 
     N = world.numPointsX
 
@@ -1034,7 +1035,7 @@ def nonLinAdvecDirichlet(vec, u, alpha, world):
 
                 # if rank == size-1, then need top boundary condition
                 # if world.rank == world.size-1:
-                if world.procYID == world.procs_per_yaxis - 1 and world.size - 1 != 0:
+                if world.procYID == world.procs_per_yaxis - 1:
                     # current_val += world.TopBoundaryCond[i] + vec[indx - world.numPointsXnoBC]
                     current_val += -vec[indx - world.numPointsX] * u[indx - world.numPointsX]
 
@@ -1084,27 +1085,25 @@ def nonLinAdvecPeriodic(vec, u, alpha, world):
     jacleftData = np.zeros(world.numPointsX)
     jacrightData = np.zeros(world.numPointsX)
 
-    if world.size > 1:
+    # print("---calling regular data---")
+    [TopNeighData, BottomNeighData, LeftNeighData, RightNeighData] = getNeighData(
+        vec, world, topData, bottomData, leftData, rightData
+    )
 
-        # print("---calling regular data---")
-        [TopNeighData, BottomNeighData, LeftNeighData, RightNeighData] = getNeighData(
-            vec, world, topData, bottomData, leftData, rightData
-        )
+    # print("---calling extra periodic data---")
+    [TopNeighData, BottomNeighData, LeftNeighData, RightNeighData] = getExtraPeriodicData(
+        vec, world, topData, bottomData, leftData, rightData
+    )
 
-        # print("---calling extra periodic data---")
-        [TopNeighData, BottomNeighData, LeftNeighData, RightNeighData] = getExtraPeriodicData(
-            vec, world, topData, bottomData, leftData, rightData
-        )
+    # print("---calling regular data---")
+    [JacUTopData, JacUBotData, JacULeftData, JacURightData] = getNeighData(
+        u, world, jactopData, jacbottomData, jacleftData, jacrightData
+    )
 
-        # print("---calling regular data---")
-        [JacUTopData, JacUBotData, JacULeftData, JacURightData] = getNeighData(
-            u, world, jactopData, jacbottomData, jacleftData, jacrightData
-        )
-
-        # print("---calling extra periodic data---")
-        [JacUTopData, JacUBotData, JacULeftData, JacURightData] = getExtraPeriodicData(
-            u, world, jactopData, jacbottomData, jacleftData, jacrightData
-        )
+    # print("---calling extra periodic data---")
+    [JacUTopData, JacUBotData, JacULeftData, JacURightData] = getExtraPeriodicData(
+        u, world, jactopData, jacbottomData, jacleftData, jacrightData
+    )
 
     N = world.numPointsX
 
@@ -1249,7 +1248,7 @@ def advectionUsquaredDir(vec, world):
 
                 # if rank == size-1, then need top boundary condition
                 # if world.rank == world.size-1:
-                if world.procYID == world.procs_per_yaxis - 1 and world.size - 1 != 0:
+                if world.procYID == world.procs_per_yaxis - 1:
                     # current_val += world.TopBoundaryCond[i] + vec[indx - world.numPointsXnoBC]
                     current_val += -vec[indx - world.numPointsX] ** 2
 
@@ -1281,14 +1280,13 @@ def advectionUsquared(vec, world):
     leftData = np.zeros(world.numPointsX)
     rightData = np.zeros(world.numPointsX)
 
-    if world.size > 1:
-        [TopNeighData, BottomNeighData, LeftNeighData, RightNeighData] = getNeighData(
-            vec, world, topData, bottomData, leftData, rightData
-        )
+    [TopNeighData, BottomNeighData, LeftNeighData, RightNeighData] = getNeighData(
+        vec, world, topData, bottomData, leftData, rightData
+    )
 
-        [TopNeighData, BottomNeighData, LeftNeighData, RightNeighData] = getExtraPeriodicData(
-            vec, world, topData, bottomData, leftData, rightData
-        )
+    [TopNeighData, BottomNeighData, LeftNeighData, RightNeighData] = getExtraPeriodicData(
+        vec, world, topData, bottomData, leftData, rightData
+    )
 
     N = world.numPointsX
 
diff --git a/wx_factory/stiff_pdes/initWorld.py b/wx_factory/stiff_pdes/initWorld.py
index 40bfe62..c59ec55 100644
--- a/wx_factory/stiff_pdes/initWorld.py
+++ b/wx_factory/stiff_pdes/initWorld.py
@@ -172,6 +172,11 @@ class InitWorld:
         else:
             yo.numPointsPerAxis = yo.numPointswBound - 2  # remove both end points
 
+        # if the points cannot be shared evenly, some of them would belong to nobody
+        if yo.numPointsPerAxis % yo.procs_per_xaxis != 0:
+            print("Wrong number of processors, must divide the number of points per axis!")
+            exit()
+
         yo.totalPoints = (yo.numPointsPerAxis) ** 2  # points in total domain, not per processor
         yo.numPointsX = int(yo.numPointsPerAxis / yo.procs_per_xaxis)  # points / processors
 
-- 
2.43.0


From 6b2685a26276d45210aacbb48386168fbc8c61f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:47 +0000
Subject: [PATCH 34/40] fix: integrators for the stiff problems cannot take a
 step

---
 wx_factory/integrators/epi_for_others.py   | 4 ++++
 wx_factory/integrators/srerk_for_others.py | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/wx_factory/integrators/epi_for_others.py b/wx_factory/integrators/epi_for_others.py
index 11bc09c..87f6977 100644
--- a/wx_factory/integrators/epi_for_others.py
+++ b/wx_factory/integrators/epi_for_others.py
@@ -5,6 +5,7 @@ from typing import Callable
 from mpi4py import MPI
 import numpy
 
+from device import Device
 from .integrator import Integrator, SolverInfo
 from solvers import (
     kiops,
@@ -50,6 +51,9 @@ class Epi_others(Integrator):
         self.output_manager = None
         self.solver_info = None
         self.sim_time = -1.0
+        self.failure_flag = 0
+        self.num_completed_steps = 0
+        self.device = Device.get_default()
         # --------------------
         # self.int = time_int                  #was in param file, now input
 
diff --git a/wx_factory/integrators/srerk_for_others.py b/wx_factory/integrators/srerk_for_others.py
index a22e026..7ec48b9 100644
--- a/wx_factory/integrators/srerk_for_others.py
+++ b/wx_factory/integrators/srerk_for_others.py
@@ -5,6 +5,7 @@ import numpy
 from mpi4py import MPI
 
 from common import Configuration
+from device import Device
 from .integrator import Integrator, alpha_coeff
 from solvers import (
     kiops,
@@ -68,8 +69,12 @@ class Srerk_others(Integrator):
         self.exponential_solver = exp_solver
         # ---these were in integrator and were causing issues---
         self.preconditioner = None
+        self.output_manager = None
         self.solver_info = None
         self.sim_time = -1.0
+        self.failure_flag = 0
+        self.num_completed_steps = 0
+        self.device = Device.get_default()
 
         if nodes:
             self.c = nodes
-- 
2.43.0


From 0dc7149fb09a955c94443cdba5d90ef17b963b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:47 +0000
Subject: [PATCH 35/40] fix: a solver statistics file that is not a database
 leaves other processes waiting

---
 wx_factory/output/solver_stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wx_factory/output/solver_stats.py b/wx_factory/output/solver_stats.py
index 2f584ea..f4e0197 100644
--- a/wx_factory/output/solver_stats.py
+++ b/wx_factory/output/solver_stats.py
@@ -118,7 +118,7 @@ class SolverStatsOutput:
             self.create_results_table()
             self.comm.allreduce(0)
 
-        except sqlite3.OperationalError:
+        except sqlite3.Error:
             # Signal failure to the other PEs
             self.comm.allreduce(1)
             raise
-- 
2.43.0


From 9d5e4aaaba2d3b0a38dc27a8178147bd3bc739d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:47 +0000
Subject: [PATCH 36/40] fix: columns missing from the statistics table are not
 added if it has as many other ones

---
 wx_factory/output/solver_stats.py | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/wx_factory/output/solver_stats.py b/wx_factory/output/solver_stats.py
index f4e0197..337e932 100644
--- a/wx_factory/output/solver_stats.py
+++ b/wx_factory/output/solver_stats.py
@@ -182,21 +182,20 @@ class SolverStatsOutput:
             cols = self.columns.__dict__
             if len(col_info) > len(cols) + 1:
                 print(f"Woahhhh too many columns in the existing table!")
-            elif len(cols) > len(col_info) - 1:
-                for col_name, col in cols.items():
-                    if col_name not in col_names:
-                        # Add that column to the table
-                        print(f"Adding column {col_name} to solver params table")
-                        default_value = "none"
-                        if col.type in ["int", "float"]:
-                            default_value = -1
-                        add_string = f"""
-                            ALTER TABLE {self.param_table}
-                            ADD COLUMN {col_name} {col.type}
-                            DEFAULT {default_value}
-                        """
-                        print(f"Add string = {add_string}")
-                        self.db_cursor.execute(add_string)
+            for col_name, col in cols.items():
+                if col_name not in col_names:
+                    # Add that column to the table
+                    print(f"Adding column {col_name} to solver params table")
+                    default_value = "none"
+                    if col.type in ["int", "float"]:
+                        default_value = -1
+                    add_string = f"""
+                        ALTER TABLE {self.param_table}
+                        ADD COLUMN {col_name} {col.type}
+                        DEFAULT {default_value}
+                    """
+                    print(f"Add string = {add_string}")
+                    self.db_cursor.execute(add_string)
 
     def write_output(
         self,
-- 
2.43.0


From be4176123d74b90e3d583a0930de18496cc8b59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:47 +0000
Subject: [PATCH 37/40] fix: tables of solver statistics are not created
 atomically

---
 wx_factory/output/solver_stats.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/wx_factory/output/solver_stats.py b/wx_factory/output/solver_stats.py
index 337e932..18e6db5 100644
--- a/wx_factory/output/solver_stats.py
+++ b/wx_factory/output/solver_stats.py
@@ -125,6 +125,9 @@ class SolverStatsOutput:
 
     def create_results_table(self):
         """Create the results tables in the database, if they don't already exist."""
+        # All in a single transaction, so that other runs using the same DB (or a crash) don't see/leave part of it
+        self.db_cursor.execute("BEGIN IMMEDIATE")
+
         # First make sure the results table does not exist yet in the DB
         self.db_cursor.execute(
             """
@@ -174,7 +177,6 @@ class SolverStatsOutput:
                 """
             )
 
-            self.db_connection.commit()
         else:  # The table exists, check its columns
             self.db_cursor.execute(f"PRAGMA table_info({self.param_table})")
             col_info = self.db_cursor.fetchall()
@@ -197,6 +199,8 @@ class SolverStatsOutput:
                     print(f"Add string = {add_string}")
                     self.db_cursor.execute(add_string)
 
+        self.db_connection.commit()
+
     def write_output(
         self,
         total_time: float,
-- 
2.43.0


From 7b6da37b47317b1198d2ce0ddfb018c091905550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:48 +0000
Subject: [PATCH 38/40] fix: gcrot reports success when it runs out of
 iterations

---
 wx_factory/solvers/gcrot.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/wx_factory/solvers/gcrot.py b/wx_factory/solvers/gcrot.py
index b4da699..9204e4c 100644
--- a/wx_factory/solvers/gcrot.py
+++ b/wx_factory/solvers/gcrot.py
@@ -230,6 +230,7 @@ def gcrot(A, b, x0=None, tol=1e-5, maxiter=1000, M=None, m=20, k=None, discard_C
             r -= c * yc
 
     # GCROT main iteration
+    flag = -1
     for j_outer in range(maxiter):
 
         beta = numpy.linalg.norm(r)
@@ -243,7 +244,7 @@ def gcrot(A, b, x0=None, tol=1e-5, maxiter=1000, M=None, m=20, k=None, discard_C
             beta = numpy.linalg.norm(r)
 
         if beta <= beta_tol:
-            j_outer = -1
+            flag = 0
             break
 
         ml = m + max(k - len(CU), 0)
@@ -344,6 +345,12 @@ def gcrot(A, b, x0=None, tol=1e-5, maxiter=1000, M=None, m=20, k=None, discard_C
         # Add new vector to CU
         CU.append((cx, ux))
 
+    if flag != 0:
+        # Out of iterations: the result of the last one has not been verified yet
+        beta = numpy.linalg.norm(b - matvec(x))
+        if beta <= tol * b_norm:
+            flag = 0
+
     # Include the solution vector to the span
     CU.append((None, x.copy()))
     if discard_C:
@@ -351,4 +358,4 @@ def gcrot(A, b, x0=None, tol=1e-5, maxiter=1000, M=None, m=20, k=None, discard_C
 
     gcrot.CU = CU
 
-    return x, beta, niter, 0, 0
+    return x, beta, niter, flag, 0
-- 
2.43.0


From f5561b57a8d227e565e3ce14800ba5200f81fc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:48 +0000
Subject: [PATCH 39/40] fix: gcrot recycles vectors of another matrix (or of
 another size) as if they were valid

---
 wx_factory/integrators/ros2.py | 5 ++++-
 wx_factory/solvers/gcrot.py    | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/wx_factory/integrators/ros2.py b/wx_factory/integrators/ros2.py
index 2c08746..003ed80 100644
--- a/wx_factory/integrators/ros2.py
+++ b/wx_factory/integrators/ros2.py
@@ -61,7 +61,10 @@ class Ros2(Integrator):
                 )
         else:
             t0 = time()
-            Qnew, local_error, num_iter, flag, residuals = gcrot(self.A, self.b, x0=self.Q_flat, tol=self.tol)
+            # The matrix is different at every step, so the images of recycled vectors (C) are not valid anymore
+            Qnew, local_error, num_iter, flag, residuals = gcrot(
+                self.A, self.b, x0=self.Q_flat, tol=self.tol, discard_C=True
+            )
             t1 = time()
             local_error = xp.linalg.norm(self.b - self.A(Qnew)) / xp.linalg.norm(self.b)
 
diff --git a/wx_factory/solvers/gcrot.py b/wx_factory/solvers/gcrot.py
index 9204e4c..9a6c1c5 100644
--- a/wx_factory/solvers/gcrot.py
+++ b/wx_factory/solvers/gcrot.py
@@ -156,7 +156,8 @@ def gcrot(A, b, x0=None, tol=1e-5, maxiter=1000, M=None, m=20, k=None, discard_C
     if not hasattr(gcrot, "CU"):
         CU = []
     else:
-        CU = gcrot.CU
+        # Only usable if it comes from a problem of the same size
+        CU = [(c, u) for c, u in gcrot.CU if u.shape == b.shape]
 
     if k is None:
         k = m
-- 
2.43.0


From 223525005272e1d78aad26284428bfdaa37803fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:56 +0000
Subject: [PATCH 40/40] fix: processes wait forever for a delegated result that
 cannot be sent

A single-process section whose result cannot be pickled failed on the active
process before anything was sent, and the others waited for it forever.
They are now told about the failure.
---
 wx_factory/wx_mpi.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/wx_factory/wx_mpi.py b/wx_factory/wx_mpi.py
index 0966854..b76b7b3 100644
--- a/wx_factory/wx_mpi.py
+++ b/wx_factory/wx_mpi.py
@@ -1,5 +1,6 @@
 """A set of functions and classes to simplify MPI usage."""
 
+import pickle
 from typing import Any
 
 from mpi4py import MPI
@@ -88,7 +89,13 @@ class SingleProcess:
         """
         is_ok = exception_type is None or self.should_skip  # No error, or not a rank that was doing stuff
         transmit = self.return_value if is_ok else _SkippableFailure()
-        self.return_value = self.comm.bcast(transmit, root=self.root_rank)
+        try:
+            message = pickle.dumps(transmit) if self.rank == self.root_rank else None
+        except Exception:
+            # The others must not wait for a result that cannot be sent
+            self.comm.bcast(pickle.dumps(_SkippableFailure()), root=self.root_rank)
+            raise
+        self.return_value = pickle.loads(self.comm.bcast(message, root=self.root_rank))
 
         ignore_error = self.return_value is None or not isinstance(self.return_value, _SkippableFailure)
         return ignore_error
-- 
2.43.0

