From cb4cd5cbed6cf043b062380eb81288464050cb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:04 +0000
Subject: [PATCH 01/17] fix: return the residual of the solution that
 get_gmres_solution returns

---
 src/dxss/gmres.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dxss/gmres.py b/src/dxss/gmres.py
index 3c14f88..482d2ec 100644
--- a/src/dxss/gmres.py
+++ b/src/dxss/gmres.py
@@ -101,6 +101,9 @@ def get_gmres_solution(
         PETSc.Sys.Print(f"Solver did not converge after {ksp_iter} iterations.")
         raise PETSc.Error
 
-    r = ksp.buildResidual()
+    # KSP.buildResidual does not give the residual of the returned x after a GMRES solve
+    r = b.duplicate()
+    A_shell.mult(x, r)
+    r.aypx(-1.0, b)  # r = b - A @ x
 
     return (x, r)
-- 
2.43.0


From 48735351278e5b9b18f54554e10df0b3283c941d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:35 +0000
Subject: [PATCH 02/17] fix: keep the data domain's indicator when
 interpolating it on a fitted mesh

---
 src/dxss/space_time.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index 3bd5ccc..e5bdae1 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -146,10 +146,12 @@ class SpaceTime:
         # TODO: could this be moved to the constructor of the dataclass?
         if omega.fitted:
             q_ind = fem.FunctionSpace(self.msh, ("DG", 0))
-            self.omega.indicator_function = fem.Function(q_ind)
-            self.omega.indicator_function.interpolate(self.omega.indicator_function)
-        else:
-            self.omega.indicator_function = self.omega.indicator_function
+            indicator_function = fem.Function(q_ind)
+            indicator_function.interpolate(omega.indicator_function)
+            self.omega = dataclasses.replace(
+                omega,
+                indicator_function=indicator_function,
+            )
 
         # FESpaces
         self.fes = None
-- 
2.43.0


From c218d77c61b659ff72321a6c78fb534bb87f343d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:35 +0000
Subject: [PATCH 03/17] fix: call the coarse grid correction of the space-time
 object in pre_twolvl

---
 src/dxss/space_time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index e5bdae1..e9aa2b0 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -1443,7 +1443,7 @@ class SpaceTime:
         self.prolongation(self.tmp2_coarse, x_out)
 
     def pre_twolvl(self, b, x_sol):
-        self.otime.q_op(b, self.tmp3_sol)
+        self.q_op(b, self.tmp3_sol)
         self.apply_spacetime_matrix(self.tmp3_sol, self.tmp4_sol)
         self.tmp5_sol.array[:] = b.array[:]
         self.tmp5_sol.array[:] -= self.tmp4_sol.array[:]
-- 
2.43.0


From 3f2699e8783db647d7bdd197b70b7835043fb91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:36 +0000
Subject: [PATCH 04/17] fix: do not return the cached space-time matrix of the
 other variant

---
 src/dxss/space_time.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index e9aa2b0..0ec1757 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -181,6 +181,7 @@ class SpaceTime:
         # SpaceTime
         self.spacetime_bilinear_form = None
         self.spacetime_matrix = None
+        self.spacetime_precond = None  # variant held by the two above
         # Slab matrix with DG-jumps
         self.slab_bilinear_form = None
         self.slab_matrix = None
@@ -709,7 +710,7 @@ class SpaceTime:
         return A, bilinear_form
 
     def get_spacetime_matrix(self, precond=False):
-        if not self.spacetime_matrix:
+        if not self.spacetime_matrix or self.spacetime_precond != precond:
             A, bilinear_form = self.setup_spacetime_matrix(  # noqa: N806
                 self.fes,
                 precond,
@@ -717,16 +718,18 @@ class SpaceTime:
             # TODO: was this a bug? also on l663 👇
             self.spacetime_bilinear_form = bilinear_form
             self.spacetime_matrix = A
+            self.spacetime_precond = precond
         return self.spacetime_matrix
 
     def get_spacetime_bfi(self, precond=False):
-        if not self.spacetime_bilinear_form:
+        if not self.spacetime_bilinear_form or self.spacetime_precond != precond:
             A, bilinear_form = self.setup_spacetime_matrix(  # noqa: N806
                 self.fes,
                 precond,
             )
             self.spacetime_bilinear_form = bilinear_form
             self.spacetime_matrix = A
+            self.spacetime_precond = precond
         return self.spacetime_bilinear_form
 
     def setup_rhs(self):
-- 
2.43.0


From 421a712c7a95273b18b357024a054130cac84459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:36 +0000
Subject: [PATCH 05/17] fix: prepare all slab matrices and vectors whatever was
 set up before

---
 src/dxss/space_time.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index 0ec1757..158ca24 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -1334,8 +1334,8 @@ class SpaceTime:
     def prepare_precondition_gmres(self):
         if not self.slab_matrix:
             self.setup_slab_matrix(with_jumps=True)
-            self.b_rhs_pre, _ = self.slab_matrix.createVecs()
-        if not self.SlabMatFirstSlab and not self.well_posed:
+        self.b_rhs_pre, _ = self.slab_matrix.createVecs()
+        if not self.slab_matrix_no_dg_jumps:
             self.setup_slab_matrix(with_jumps=False)
         if not self.coupling_matrix_between_slices:
             self.setup_coupling_matrix_between_slices()
-- 
2.43.0


From 6ea080d4b565906df209014531ed0acc129c10f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:36 +0000
Subject: [PATCH 06/17] fix: apply the initial data terms in
 apply_spacetime_matrix

---
 src/dxss/space_time.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index 158ca24..0984bf4 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -1165,6 +1165,20 @@ class SpaceTime:
                         self.dofmaps_full[j][shift_idx + ell]
                     ] += self.vec_slab2.array[self.dofmaps_pre[j][ell]]
 
+            if n == 0 and self.well_posed:  # initial data
+                for j in range(2):
+                    self.vec_0_bnd_in.array[self.dofmaps_slab_bnd[j]] = vec_in.array[
+                        self.dofmaps_full[j][0]
+                    ]
+                self.scaled_mass_matrix_between_slices.mult(
+                    self.vec_0_bnd_in,
+                    self.vec_0_bnd_out,
+                )
+                for j in range(2):
+                    vec_out.array[
+                        self.dofmaps_full[j][0]
+                    ] += self.vec_0_bnd_out.array[self.dofmaps_slab_bnd[j]]
+
             if n > 0:
                 for j in range(2):
                     for i in range(2):
-- 
2.43.0


From 6c3c18f2d1cc3d84e39be9e70b5eb1d8a30d5254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:36 +0000
Subject: [PATCH 07/17] fix: leave the initial data alone when measuring or
 exporting errors

---
 src/dxss/space_time.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index 0984bf4..9aa8738 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -1479,10 +1479,10 @@ class SpaceTime:
         self.uh.x.scatter_forward()
         u1_h, u2_h, z1_h, z2_h = self.uh.split()
 
-        self.u1_0.x.array[:] = u1_h.x.array[self.dofmaps_full[0][-1]]
-        self.u2_0.x.array[:] = u2_h.x.array[self.dofmaps_full[1][-1]]
+        u1_end = fem.Function(self.fes_u1_0)
+        u1_end.x.array[:] = u1_h.x.array[self.dofmaps_full[0][-1]]
         ue = self.solution.v(self.T, self.x)
-        l2_error = fem.form(ufl.inner(self.u1_0 - ue, self.u1_0 - ue) * dx)
+        l2_error = fem.form(ufl.inner(u1_end - ue, u1_end - ue) * dx)
         error_local = fem.assemble_scalar(l2_error)
         error_l2_abs = np.sqrt(self.msh.comm.allreduce(error_local, op=MPI.SUM))
         print(f"t = {self.T}, L2-error = {error_l2_abs} ")
@@ -1850,8 +1850,10 @@ class SpaceTime:
         self.uh.x.scatter_forward()
         u1_h, u2_h, z1_h, z2_h = self.uh.split()
 
-        self.u1_0.x.array[:] = u1_h.x.array[self.dofmaps_full[0][-1]]
-        self.u2_0.x.array[:] = u2_h.x.array[self.dofmaps_full[1][-1]]
+        u1_end = fem.Function(self.fes_u1_0)
+        u2_end = fem.Function(self.fes_u2_0)
+        u1_end.x.array[:] = u1_h.x.array[self.dofmaps_full[0][-1]]
+        u2_end.x.array[:] = u2_h.x.array[self.dofmaps_full[1][-1]]
 
         u_exact = fem.Function(self.fes_u1_0)
         u_diff = fem.Function(self.fes_u1_0)
@@ -1871,8 +1873,8 @@ class SpaceTime:
         )
         ut_exact.interpolate(ut_expr_exact)
 
-        u_diff.x.array[:] = np.abs(u_exact.x.array[:] - self.u1_0.x.array[:])
-        ut_diff.x.array[:] = np.abs(ut_exact.x.array[:] - self.u2_0.x.array[:])
+        u_diff.x.array[:] = np.abs(u_exact.x.array[:] - u1_end.x.array[:])
+        ut_diff.x.array[:] = np.abs(ut_exact.x.array[:] - u2_end.x.array[:])
         print(" u_diff.x.array =", u_diff.x.array)
 
         u_diff.name = "u-abserr"
-- 
2.43.0


From 19b79e9b0d7fce3c5e1be50734539c35e9e7e481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:36 +0000
Subject: [PATCH 08/17] fix: keep the shape of the matrix in get_sparse_matrix

---
 src/dxss/space_time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index 9aa8738..1265396 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -67,7 +67,7 @@ _DEFAULT_PARAMETERS = ProblemParameters()
 # TODO: this is duplicated... factor out to a "PETSc interface functions" file?
 def get_sparse_matrix(mat):
     ai, aj, av = mat.getValuesCSR()
-    return sp.csr_matrix((av, aj, ai))
+    return sp.csr_matrix((av, aj, ai), shape=mat.getSize())
 
 
 class SpaceTime:
-- 
2.43.0


From d682cc3b9932c2e659112bcb12fb3abd19099b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:36 +0000
Subject: [PATCH 09/17] fix: solve for u_sol in the direct branch of the
 drivers

---
 src/dxss/solve_1d.py | 2 +-
 src/dxss/solve_2d.py | 2 +-
 src/dxss/solve_3d.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dxss/solve_1d.py b/src/dxss/solve_1d.py
index 1a0309e..848c8c6 100644
--- a/src/dxss/solve_1d.py
+++ b/src/dxss/solve_1d.py
@@ -170,7 +170,7 @@ def solve_problem(measure_errors=False):
         A_space_time = ST.get_spacetime_matrix()  # noqa: N806
         u_sol, _ = A_space_time.createVecs()
         solver_space_time = get_lu_solver(ST.msh, A_space_time)
-        solver_space_time.solve(u_sol, b_rhs)
+        solver_space_time.solve(b_rhs, u_sol)
 
     end = time.time()
     print("elapsed time  " + str(end - start) + " seconds")
diff --git a/src/dxss/solve_2d.py b/src/dxss/solve_2d.py
index 292d46b..e26db7f 100644
--- a/src/dxss/solve_2d.py
+++ b/src/dxss/solve_2d.py
@@ -172,7 +172,7 @@ def solve_problem(measure_errors=False):
         A_space_time = ST.get_spacetime_matrix()  # noqa: N806
         u_sol, _ = A_space_time.createVecs()
         solver_space_time = get_lu_solver(ST.msh, A_space_time)
-        solver_space_time.solve(u_sol, b_rhs)
+        solver_space_time.solve(b_rhs, u_sol)
 
     end = time.time()
     print("elapsed time  " + str(end - start) + " seconds")
diff --git a/src/dxss/solve_3d.py b/src/dxss/solve_3d.py
index 9f36f60..9fcb1c9 100644
--- a/src/dxss/solve_3d.py
+++ b/src/dxss/solve_3d.py
@@ -237,7 +237,7 @@ def solve_problem(measure_errors=False):
         A_space_time = ST.get_spacetime_matrix()  # noqa: N806
         u_sol, _ = A_space_time.createVecs()
         solver_space_time = get_lu_solver(ST.msh, A_space_time)
-        solver_space_time.solve(u_sol, b_rhs)
+        solver_space_time.solve(b_rhs, u_sol)
 
     end = time.time()
     print("elapsed time  " + str(end - start) + " seconds")
-- 
2.43.0


From e369f7c8f1df03ce2f13a7e666991ea8236bcd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:36 +0000
Subject: [PATCH 10/17] fix: interpolate the dual variables in their own space
 between the grids

---
 src/dxss/space_time.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index 1265396..4eb99df 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -250,6 +250,8 @@ class SpaceTime:
         self.dofmap_node_fine = None
         self.u_node_fine = None
         self.u_node_coarse = None
+        self.z_node_fine = None
+        self.z_node_coarse = None
 
     def setup_spacetime_finite_elements(self):
         # Full Space-time system
@@ -1400,6 +1402,9 @@ class SpaceTime:
         self.fes_node_fine, self.dofmap_node_fine = self.fes.sub(0).sub(0).collapse()
         self.u_node_fine = fem.Function(self.fes_node_fine)
         self.u_node_coarse = fem.Function(self.fes_node_coarse)
+        # the dual variables have their own polynomial order in space
+        self.z_node_fine = fem.Function(self.fes.sub(2).sub(0).collapse()[0])
+        self.z_node_coarse = fem.Function(self.fes_coarse.sub(2).sub(0).collapse()[0])
 
         self.SpaceTimeMatCoarse, self.SpaceTimeBfiCoarse = self.setup_spacetime_matrix(
             self.fes_coarse,
@@ -1426,14 +1431,16 @@ class SpaceTime:
         for _n in range(self.N):
             for j in range(4):
                 shift_idx = int_idx_q if j in [0, 1] else int_idx_qstar
+                node_coarse = self.u_node_coarse if j in [0, 1] else self.z_node_coarse
+                node_fine = self.u_node_fine if j in [0, 1] else self.z_node_fine
                 for ell in range(self.subspace_time_order[j] + 1):
-                    self.u_node_coarse.x.array[:] = x_coarse.array[
+                    node_coarse.x.array[:] = x_coarse.array[
                         self.dofmaps_full_coarse[j][shift_idx + ell]
                     ]
-                    self.u_node_fine.interpolate(self.u_node_coarse)
+                    node_fine.interpolate(node_coarse)
                     x_fine.array[
                         self.dofmaps_full[j][shift_idx + ell]
-                    ] = self.u_node_fine.x.array[:]
+                    ] = node_fine.x.array[:]
             int_idx_q += self.otime.q + 1
             int_idx_qstar += self.otime.qstar + 1
 
@@ -1443,14 +1450,16 @@ class SpaceTime:
         for _n in range(self.N):
             for j in range(4):
                 shift_idx = int_idx_q if j in [0, 1] else int_idx_qstar
+                node_coarse = self.u_node_coarse if j in [0, 1] else self.z_node_coarse
+                node_fine = self.u_node_fine if j in [0, 1] else self.z_node_fine
                 for ell in range(self.subspace_time_order[j] + 1):
-                    self.u_node_fine.x.array[:] = x_fine.array[
+                    node_fine.x.array[:] = x_fine.array[
                         self.dofmaps_full[j][shift_idx + ell]
                     ]
-                    self.u_node_coarse.interpolate(self.u_node_fine)
+                    node_coarse.interpolate(node_fine)
                     x_coarse.array[
                         self.dofmaps_full_coarse[j][shift_idx + ell]
-                    ] = self.u_node_coarse.x.array[:]
+                    ] = node_coarse.x.array[:]
             int_idx_qstar += self.otime.qstar + 1
             int_idx_q += self.otime.q + 1
 
-- 
2.43.0


From 291a274baf6c685f06974248071efd1978094382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:30 +0000
Subject: [PATCH 11/17] fix: raise for node numbers that are not sequential,
 not for those that are

---
 src/dxss/meshes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dxss/meshes.py b/src/dxss/meshes.py
index dd74037..fd3ae43 100644
--- a/src/dxss/meshes.py
+++ b/src/dxss/meshes.py
@@ -491,7 +491,7 @@ def get_mesh_inclusion(h_init=1.25, order=2):  # noqa: PLR0915
     points = ls_points_2d.reshape(-1, 2)
     idx -= 1
     srt = np.argsort(idx)
-    if np.all(idx[srt] == np.arange(len(idx))):
+    if not np.all(idx[srt] == np.arange(len(idx))):
         msg = "idx not sequential"
         raise RuntimeError(msg)  # TODO: check
     x = points[srt]
@@ -623,7 +623,7 @@ def get_mesh_inclusion_square(  # noqa: PLR0915
     points = ls_points_2d.reshape(-1, 2)
     idx -= 1
     srt = np.argsort(idx)
-    if np.all(idx[srt] == np.arange(len(idx))):
+    if not np.all(idx[srt] == np.arange(len(idx))):
         msg = "idx not sequential"
         raise RuntimeError(msg)  # TODO: check
     x = points[srt]
@@ -728,7 +728,7 @@ def get_mesh_bottom_data(h_init=1.25, eta=0.6):
     points = ls_points_2d.reshape(-1, 2)
     idx -= 1
     srt = np.argsort(idx)
-    if np.all(idx[srt] == np.arange(len(idx))):
+    if not np.all(idx[srt] == np.arange(len(idx))):
         msg = "idx not sequential"
         raise RuntimeError(msg)  # TODO: check
     x = points[srt]
-- 
2.43.0


From 250530606d870f08fb0fdb84d78c576eb463395a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:30 +0000
Subject: [PATCH 12/17] fix: do not call an undefined function in
 get_mesh_inclusion_square

---
 src/dxss/meshes.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/dxss/meshes.py b/src/dxss/meshes.py
index fd3ae43..5782d57 100644
--- a/src/dxss/meshes.py
+++ b/src/dxss/meshes.py
@@ -650,9 +650,7 @@ def get_mesh_inclusion_square(  # noqa: PLR0915
         MPI.COMM_WORLD,
         cells,
         x,
-        ufl_mesh_from_gmsh(  # noqa: F821
-            gmshio.ufl_mesh(gmsh_cell_id, x.shape[1]),
-        ),  # TODO: this function is undefined!! (old dolfinx api?)
+        gmshio.ufl_mesh(gmsh_cell_id, x.shape[1]),
     )
 
     with XDMFFile(msh.comm, "mesh.xdmf", "w") as xdmf:
-- 
2.43.0


From cfe150ff57441d2dd1ea00ccad48718714e230ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:30 +0000
Subject: [PATCH 13/17] fix: close the gmsh session on every rank and in 3d

---
 src/dxss/meshes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dxss/meshes.py b/src/dxss/meshes.py
index 5782d57..bec8f5d 100644
--- a/src/dxss/meshes.py
+++ b/src/dxss/meshes.py
@@ -78,7 +78,7 @@ def create_initial_mesh_convex(init_h_scale=1.0):  # noqa: PLR0915
         gmsh.model.addPhysicalGroup(1, bnd_square, bnd_marker)
         gmsh.model.mesh.generate(2)
         gmsh.write("mesh.msh")
-        gmsh.finalize()
+    gmsh.finalize()
 
     import meshio
 
@@ -382,7 +382,7 @@ def get_mesh_hierarchy_fitted_disc(n_ref, eta, h_init=1.25):  # noqa: PLR0915
         gmsh.model.addPhysicalGroup(1, bnd_square, bnd_marker)
         gmsh.model.mesh.generate(2)
         gmsh.write("mesh.msh")
-        gmsh.finalize()
+    gmsh.finalize()
 
     import meshio
 
@@ -917,6 +917,7 @@ def get_3d_mesh_data_all_around(n_ref, init_h_scale=1.0):
         gmsh_model_rank,
         gdim=gdim,
     )
+    gmsh.finalize()
 
     mesh_hierarchy = []
     mesh_hierarchy.append(mesh)
-- 
2.43.0


From 1d3c61792e1ed4247c507a54281b024127422b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:50 +0000
Subject: [PATCH 14/17] fix: do not add an empty rectangle for the default eta
 of get_mesh_inclusion_square

---
 src/dxss/meshes.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/dxss/meshes.py b/src/dxss/meshes.py
index bec8f5d..f0fa105 100644
--- a/src/dxss/meshes.py
+++ b/src/dxss/meshes.py
@@ -555,24 +555,23 @@ def get_mesh_inclusion_square(  # noqa: PLR0915
                 x_r - x_l,
                 eta - y_l,
             )
-            target_dom_plus = gmsh.model.occ.addRectangle(
-                x_l,
-                eta,
-                0,
-                x_r - x_l,
-                y_r - eta,
-            )
+            parts = [(2, target_dom_minus)]
+            # Nothing of the target domain is left above eta = y_r (the default)
+            if eta != y_r:
+                target_dom_plus = gmsh.model.occ.addRectangle(
+                    x_l,
+                    eta,
+                    0,
+                    x_r - x_l,
+                    y_r - eta,
+                )
+                parts.append((2, target_dom_plus))
             mu_inner = gmsh.model.occ.addRectangle(-0.75, -0.75, 0, 1.5, 1.5)
             remainder_top = gmsh.model.occ.addRectangle(-1.5, eta, 0, 3.0, 1.5 - eta)
             gmsh.model.occ.synchronize()
             gmsh.model.occ.fragment(
                 [(2, 3)],
-                [
-                    (2, target_dom_minus),
-                    (2, mu_inner),
-                    (2, target_dom_plus),
-                    (2, remainder_top),
-                ],
+                [*parts, (2, mu_inner), (2, remainder_top)],
             )
 
             gmsh.model.occ.synchronize()
-- 
2.43.0


From 69257abcc1b361923b3b3f02a93030c05ad5a2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:50 +0000
Subject: [PATCH 15/17] fix: call compute_incident_entities for the installed
 dolfinx in all hierarchies

---
 src/dxss/meshes.py | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/dxss/meshes.py b/src/dxss/meshes.py
index f0fa105..0f52b02 100644
--- a/src/dxss/meshes.py
+++ b/src/dxss/meshes.py
@@ -223,7 +223,14 @@ def get_mesh_hierarchy(n_ref, init_h_scale=1.0):  # noqa: PLR0915
     for _i in range(n_ref):
         mesh.topology.create_entities(1)
         cells = locate_entities(mesh, mesh.topology.dim, refine_all)
-        edges = compute_incident_entities(mesh, cells, 2, 1)
+        # Call signature for compute_incident_entities changed to accept mesh topology
+        # rather than mesh in dolfinx v0.7 so set relevant argument accordingly based on
+        # installed version
+        if Version(version("fenics-dolfinx")) < Version("0.7"):
+            mesh_or_topology = mesh
+        else:
+            mesh_or_topology = mesh.topology
+        edges = compute_incident_entities(mesh_or_topology, cells, 2, 1)
         mesh = refine(mesh, edges, redistribute=True)
         mesh_hierarchy.append(mesh)
     return mesh_hierarchy
@@ -313,7 +320,14 @@ def get_mesh_hierarchy_nonconvex(n_ref, init_h_scale=1.0):  # noqa: PLR0915
     for _i in range(n_ref):
         mesh.topology.create_entities(1)
         cells = locate_entities(mesh, mesh.topology.dim, refine_all)
-        edges = compute_incident_entities(mesh, cells, 2, 1)
+        # Call signature for compute_incident_entities changed to accept mesh topology
+        # rather than mesh in dolfinx v0.7 so set relevant argument accordingly based on
+        # installed version
+        if Version(version("fenics-dolfinx")) < Version("0.7"):
+            mesh_or_topology = mesh
+        else:
+            mesh_or_topology = mesh.topology
+        edges = compute_incident_entities(mesh_or_topology, cells, 2, 1)
         print(edges)
         mesh = refine(mesh, edges, redistribute=True)
         mesh_hierarchy.append(mesh)
@@ -424,7 +438,14 @@ def get_mesh_hierarchy_fitted_disc(n_ref, eta, h_init=1.25):  # noqa: PLR0915
     for _i in range(n_ref):
         mesh.topology.create_entities(1)
         cells = locate_entities(mesh, mesh.topology.dim, refine_all)
-        edges = compute_incident_entities(mesh, cells, 2, 1)
+        # Call signature for compute_incident_entities changed to accept mesh topology
+        # rather than mesh in dolfinx v0.7 so set relevant argument accordingly based on
+        # installed version
+        if Version(version("fenics-dolfinx")) < Version("0.7"):
+            mesh_or_topology = mesh
+        else:
+            mesh_or_topology = mesh.topology
+        edges = compute_incident_entities(mesh_or_topology, cells, 2, 1)
         print(edges)
         mesh = refine(mesh, edges, redistribute=True)
         mesh_hierarchy.append(mesh)
-- 
2.43.0


From b38e699c39d712e186d4525ecb7e73e1fa2eb565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:08 +0000
Subject: [PATCH 16/17] fix: mark the target domain of the nonconvex mesh, not
 the rest

---
 src/dxss/meshes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dxss/meshes.py b/src/dxss/meshes.py
index 0f52b02..d60b89c 100644
--- a/src/dxss/meshes.py
+++ b/src/dxss/meshes.py
@@ -260,7 +260,7 @@ def get_mesh_hierarchy_nonconvex(n_ref, init_h_scale=1.0):  # noqa: PLR0915
             print(com)
             if np.allclose(com, [0.5, 0.275, 0]):
                 gmsh.model.addPhysicalGroup(2, [surface[1]], omega_marker)
-            elif np.allclose(com, [0.5, 0.5, 0]):
+            elif np.allclose(com, [0.5, 0.6125, 0]):
                 gmsh.model.addPhysicalGroup(2, [surface[1]], b_withoutomega_marker)
             else:
                 gmsh.model.addPhysicalGroup(2, [surface[1]], rest_marker)
-- 
2.43.0


From 80f8b1fac705d588feede9ca6aac6f95662d425a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:49 +0000
Subject: [PATCH 17/17] fix: measured_errors missed the final time when the end
 of the last slab was rounded down

---
 src/dxss/space_time.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index 4eb99df..605ee9d 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -1546,8 +1546,10 @@ class SpaceTime:
                 error_dt_tni = self.msh.comm.allreduce(error_dt_tni_local, op=MPI.SUM)
                 total_error_l2l2_dt += omega_i * delta_t * error_dt_tni
 
+            # the rounded end of the last slab may lie before the final time
+            t_end = self.T if n == self.N - 1 else (n + 1) * delta_t
             for t_sample in self.sample_pts_error:
-                if t_sample >= t_n and t_sample <= (t_n + delta_t):
+                if t_sample >= t_n and t_sample <= t_end:
                     ue = self.solution.v(t_sample, self.x)
                     dt_ue = self.solution.dvdt(t_sample, self.x)
                     uh_at_ti = sum(
-- 
2.43.0

