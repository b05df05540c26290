From 569c57b40d7e0b3950c495b3c9f5fb23a0d12d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:11 +0000
Subject: [PATCH 01/25] fix: use nodal basis functions for serendipity elements
 (QUAD8, HEX20)

basix defines the edge degrees of freedom of its serendipity elements as integral
moments. The library treats every degree of freedom (and every geometry node) as a
nodal value, so midside values, curved geometry and Dirichlet values at midside nodes
were wrong. Convert the tabulated basis to the nodal one.
---
 jax_fem/basis.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/jax_fem/basis.py b/jax_fem/basis.py
index a7b7b04..af541d9 100644
--- a/jax_fem/basis.py
+++ b/jax_fem/basis.py
@@ -138,6 +138,23 @@ def _normalize_quadrature_rule(rule):
     )
 
 
+def tabulate_nodal_basis(element_family, basix_ele, degree, points):
+    """Tabulate values and first derivatives of the nodal basis functions in basix ordering.
+
+    The edge degrees of freedom of a basix serendipity element are integral moments, not point values.
+    Convert such a basis so that every degree of freedom is the value at a node (vertex or edge midpoint).
+    """
+    element = basix.create_element(element_family, basix_ele, degree)
+    vals_and_grads = element.tabulate(1, points)
+    if element_family == basix.ElementFamily.serendipity:
+        vertices = basix.geometry(basix_ele)
+        edges = basix.topology(basix_ele)[1]
+        nodes = onp.vstack([vertices] + [onp.mean(vertices[edge], axis=0) for edge in edges])
+        vals_at_nodes = element.tabulate(0, nodes)[0, :, :, 0]
+        vals_and_grads = onp.einsum('dqmv,mn->dqnv', vals_and_grads, onp.linalg.inv(vals_at_nodes))
+    return vals_and_grads
+
+
 def get_shape_vals_and_grads(ele_type, quadrature_rule=None, quadrature_order=None):
     """Use `basix <https://github.com/FEniCS/basix>`_ to get shape function values and gradients for elements.
 
@@ -167,8 +184,7 @@ def get_shape_vals_and_grads(ele_type, quadrature_rule=None, quadrature_order=No
 
     quad_points, weights = basix.make_quadrature(basix_ele, quadrature_order, rule=quadrature_rule)
 
-    element = basix.create_element(element_family, basix_ele, degree)
-    vals_and_grads = element.tabulate(1, quad_points)[:, :, re_order, :]
+    vals_and_grads = tabulate_nodal_basis(element_family, basix_ele, degree, quad_points)[:, :, re_order, :]
     shape_values = vals_and_grads[0, :, :, 0]
     shape_grads_ref = onp.transpose(vals_and_grads[1:, :, :, 0], axes=(1, 2, 0))
     logger.info(f"ele_type = {ele_type}, quad_points.shape = (num_quads, dim) = {quad_points.shape}")
@@ -241,8 +257,7 @@ def get_face_shape_vals_and_grads(ele_type, quadrature_rule=None, quadrature_ord
     face_inds = onp.array(face_inds)
     face_inds = reorder_inds(face_inds, re_order)
     num_faces, num_face_quads, dim = face_quad_points.shape
-    element = basix.create_element(element_family, basix_ele, degree)
-    vals_and_grads = element.tabulate(1, face_quad_points.reshape(-1, dim))[:, :, re_order, :]
+    vals_and_grads = tabulate_nodal_basis(element_family, basix_ele, degree, face_quad_points.reshape(-1, dim))[:, :, re_order, :]
     face_shape_vals = vals_and_grads[0, :, :, 0].reshape(num_faces, num_face_quads, -1)
     face_shape_grads_ref = vals_and_grads[1:, :, :, 0].reshape(dim, num_faces, num_face_quads, -1)
     face_shape_grads_ref = onp.transpose(face_shape_grads_ref, axes=(1, 2, 3, 0))
-- 
2.43.0


From 140618299cd29fbfb1a03f9965c594b81e655c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:07 +0000
Subject: [PATCH 02/25] fix: count_selected_faces works on meshes that store
 JAX arrays

---
 jax_fem/generate_mesh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jax_fem/generate_mesh.py b/jax_fem/generate_mesh.py
index bd564c8..1bba120 100644
--- a/jax_fem/generate_mesh.py
+++ b/jax_fem/generate_mesh.py
@@ -40,8 +40,8 @@ class Mesh():
         face_count : int
         """
         _, _, _, _, face_inds = get_face_shape_vals_and_grads(self.ele_type)
-        cell_points = onp.take(self.points, self.cells, axis=0)
-        cell_face_points = onp.take(cell_points, face_inds, axis=1)
+        cell_points = np.take(self.points, self.cells, axis=0)
+        cell_face_points = np.take(cell_points, face_inds, axis=1)
 
         vmap_location_fn = jax.vmap(location_fn)
 
-- 
2.43.0


From 35cf280bc9535f143ae0648f78ea7f300621db90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:49 +0000
Subject: [PATCH 03/25] fix: jax_solver accepts precond=False

---
 jax_fem/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_fem/solver.py b/jax_fem/solver.py
index c071986..176d44f 100644
--- a/jax_fem/solver.py
+++ b/jax_fem/solver.py
@@ -66,7 +66,7 @@ def jax_solve(A, b, x0, precond):
     A_sp_scipy = scipy.sparse.csr_array((data, indices, indptr), shape=A.getSize())
     A = BCOO.from_scipy_sparse(A_sp_scipy).sort_indices()
     jacobi = np.array(A_sp_scipy.diagonal())
-    pc = lambda x: x * (1. / jacobi) if precond else None
+    pc = (lambda x: x * (1. / jacobi)) if precond else None
     
     if issubclass(PETSc.ScalarType, np.complexfloating):
         logger.debug("JAX Solver - Using PETSc with complex number support")
-- 
2.43.0


From 5240d2b6d66516ab95a1cfa07cf04d0b42a5d6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:34 +0000
Subject: [PATCH 04/25] fix: petsc_solve recovers when the Krylov method breaks
 down

---
 jax_fem/solver.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jax_fem/solver.py b/jax_fem/solver.py
index 176d44f..986d04f 100644
--- a/jax_fem/solver.py
+++ b/jax_fem/solver.py
@@ -123,6 +123,12 @@ def petsc_solve(A, b, ksp_type, pc_type):
     x = PETSc.Vec().createSeq(len(b))
     ksp.solve(rhs, x)
 
+    # BiCGStab-type methods break down when the preconditioner is (nearly) exact; GMRES does not.
+    if ksp.getConvergedReason() < 0:
+        logger.warning(f"PETSc Solver - {ksp.getType()} diverged (reason {ksp.getConvergedReason()}), retrying with gmres")
+        ksp.setType('gmres')
+        ksp.solve(rhs, x)
+
     # Verify convergence
     y = PETSc.Vec().createSeq(len(b))
     A.mult(x, y)
-- 
2.43.0


From fecb31d9a674669d081c7b603ae5806dad858f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:33 +0000
Subject: [PATCH 05/25] fix: implicit_vjp leaves the problem with concrete
 parameters

---
 jax_fem/solver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jax_fem/solver.py b/jax_fem/solver.py
index 986d04f..a6f467c 100644
--- a/jax_fem/solver.py
+++ b/jax_fem/solver.py
@@ -1421,6 +1421,9 @@ def implicit_vjp(problem, sol_list, params, v_list, adjoint_solver_options):
     vjp_result = vjp_linear_fn(problem.unflatten_fn_sol_list(adjoint_vec))
     vjp_result = jax.tree_util.tree_map(lambda x: -x, vjp_result)
 
+    # The constraint function was traced with abstract parameters; leave concrete ones behind
+    problem.set_params(params)
+
     return vjp_result
 
 
-- 
2.43.0


From 7ca1b6f02a9e5adf518581c57b18b08a62c4fa05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:34 +0000
Subject: [PATCH 06/25] fix: line_search works with linear multipoint
 constraints

---
 jax_fem/solver.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/jax_fem/solver.py b/jax_fem/solver.py
index a6f467c..7692751 100644
--- a/jax_fem/solver.py
+++ b/jax_fem/solver.py
@@ -436,7 +436,12 @@ def line_search(problem, dofs, inc):
     res_fn = apply_bc(res_fn, problem)
 
     def res_norm_fn(alpha):
-        res_vec = res_fn(dofs + alpha*inc)
+        new_dofs = dofs + alpha*inc
+        if hasattr(problem, 'P_mat'):
+            # dofs and inc are reduced
+            res_vec = problem.P_mat.T @ res_fn(problem.P_mat @ new_dofs)
+        else:
+            res_vec = res_fn(new_dofs)
         return np.linalg.norm(res_vec)
 
     # grad_res_norm_fn = jax.grad(res_norm_fn)
-- 
2.43.0


From 91b033cd5e7d3ad34b2fea202056970f8582b8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:18 +0000
Subject: [PATCH 07/25] fix: arc-length steps are corrected to equilibrium
 after the predictor

---
 jax_fem/solver.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/jax_fem/solver.py b/jax_fem/solver.py
index 7692751..ccb7369 100644
--- a/jax_fem/solver.py
+++ b/jax_fem/solver.py
@@ -590,7 +590,11 @@ def arc_length_solver_disp_driven(problem, prev_u_vec, prev_lamda, prev_Delta_u_
 
     tol = 1e-6
     res_val = 1.
-    while res_val > tol:
+    n_iters = 0
+    # The first iteration is the predictor: its residual is that of the previous state,
+    # so at least one corrector must follow.
+    while res_val > tol or n_iters < 2:
+        n_iters += 1
         res_vec, A = newton_update_helper(u_vec)
         res_val = np.linalg.norm(res_vec)
         logger.debug(f"Arc length solver: res_val = {res_val}")
@@ -676,7 +680,11 @@ def arc_length_solver_force_driven(problem, prev_u_vec, prev_lamda, prev_Delta_u
 
     tol = 1e-6
     res_val = 1.
-    while res_val > tol:
+    n_iters = 0
+    # The first iteration is the predictor: its residual is that of the previous state,
+    # so at least one corrector must follow.
+    while res_val > tol or n_iters < 2:
+        n_iters += 1
         res_vec, A = newton_update_helper(u_vec)
         load_term = (1. - lamda) * q_aux_mapped
         res_val = np.linalg.norm(res_vec + load_term)
-- 
2.43.0


From 49d99dfcebb0f8f44e4064df620f08e8d77d21ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:22 +0000
Subject: [PATCH 08/25] fix: dynamic relaxation works for multi-variable
 problems

---
 jax_fem/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_fem/solver.py b/jax_fem/solver.py
index ccb7369..0f23121 100644
--- a/jax_fem/solver.py
+++ b/jax_fem/solver.py
@@ -895,7 +895,7 @@ def assembleCSR(problem, dofs):
     sol_list = problem.unflatten_fn_sol_list(dofs)
     problem.newton_update(sol_list)
     A_sp_scipy = scipy.sparse.csr_array((problem.V, (problem.I, problem.J)),
-        shape=(problem.fes[0].num_total_dofs, problem.fes[0].num_total_dofs))
+        shape=(problem.num_total_dofs_all_vars, problem.num_total_dofs_all_vars))
 
     for ind, fe in enumerate(problem.fes):
         for i in range(len(fe.node_inds_list)):
-- 
2.43.0


From f6ae5d5e4b05d5662fdca4e19baf9d14a0a47f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:33 +0000
Subject: [PATCH 09/25] fix: dynamic relaxation starts from exact boundary
 values for every linear backend

---
 jax_fem/solver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jax_fem/solver.py b/jax_fem/solver.py
index 0f23121..bb64a70 100644
--- a/jax_fem/solver.py
+++ b/jax_fem/solver.py
@@ -968,7 +968,8 @@ def dynamic_relax_solve(problem, tol=1e-6, nKMat=1000, nPrint=500, info=True, in
 
     if initial_guess is not None:
         dofs = initial_guess
-        dofs = assign_bc(dofs, problem)
+    # Constrained dofs never move below: they must hold the prescribed values exactly
+    dofs = assign_bc(dofs, problem)
 
     # parameters not to change
     cmin = 1e-3
-- 
2.43.0


From ca73832f5947b3d981700f2f5c5c483942d29776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:00 +0000
Subject: [PATCH 10/25] fix: linear_solver does not modify the caller's options

---
 jax_fem/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_fem/solver.py b/jax_fem/solver.py
index bb64a70..8db5da2 100644
--- a/jax_fem/solver.py
+++ b/jax_fem/solver.py
@@ -267,7 +267,7 @@ def AMGX_solve(A, b, x0, cfg_path):
 def linear_solver(A, b, x0, linear_options):
     # If user does not specify any solver, set jax_solver as the default one.
     if len(linear_options.keys() & {'jax_solver', 'amgx_solver', 'spsolve_solver', 'petsc_solver', 'custom_solver'}) == 0:
-        linear_options['jax_solver'] = {}
+        linear_options = {**linear_options, 'jax_solver': {}}
 
     if 'jax_solver' in linear_options:
         precond = linear_options['jax_solver']['precond'] if 'precond' in linear_options['jax_solver'] else True
-- 
2.43.0


From 077b3c7f4b2188043ddc5cfa625e067726aa5ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:50 +0000
Subject: [PATCH 11/25] fix: save_sol accepts a file name without a directory

os.path.dirname('u.vtu') is '' and os.makedirs('') raises FileNotFoundError.
---
 jax_fem/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jax_fem/utils.py b/jax_fem/utils.py
index c9ce5c1..e824f84 100644
--- a/jax_fem/utils.py
+++ b/jax_fem/utils.py
@@ -40,7 +40,8 @@ def save_sol(fe, sol, sol_file, cell_infos=None, point_infos=None):
     """
     cell_type = get_meshio_cell_type(fe.ele_type)
     sol_dir = os.path.dirname(sol_file)
-    os.makedirs(sol_dir, exist_ok=True)
+    if sol_dir:
+        os.makedirs(sol_dir, exist_ok=True)
     out_mesh = meshio.Mesh(points=fe.points, cells={cell_type: fe.cells})
     out_mesh.point_data['sol'] = onp.array(sol, dtype=onp.float32)
     if cell_infos is not None:
-- 
2.43.0


From c248b007bd7c87341affad92ab2e8cad74b9f9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:50 +0000
Subject: [PATCH 12/25] fix: save_sol rejects a solution of the wrong size

The size of attached data was checked, the size of the solution was not, so
a file was written that no reader accepts.
---
 jax_fem/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jax_fem/utils.py b/jax_fem/utils.py
index e824f84..770d105 100644
--- a/jax_fem/utils.py
+++ b/jax_fem/utils.py
@@ -38,6 +38,7 @@ def save_sol(fe, sol, sol_file, cell_infos=None, point_infos=None):
             
             point_infos = [('T', T_point_data)]
     """
+    assert len(sol) == len(fe.points), f"solution wrong shape, get {len(sol)} rows, while num_total_nodes = {len(fe.points)}"
     cell_type = get_meshio_cell_type(fe.ele_type)
     sol_dir = os.path.dirname(sol_file)
     if sol_dir:
-- 
2.43.0


From 47eac486b27e0a25a225bd7b4b50e17c55d8bedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:50 +0000
Subject: [PATCH 13/25] fix: save_sol accepts vector-valued cell data

The documentation asks for (num_cells, ...) arrays, the assertion rejected
every array with more than one axis.
---
 jax_fem/utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/jax_fem/utils.py b/jax_fem/utils.py
index 770d105..f65fee8 100644
--- a/jax_fem/utils.py
+++ b/jax_fem/utils.py
@@ -48,8 +48,7 @@ def save_sol(fe, sol, sol_file, cell_infos=None, point_infos=None):
     if cell_infos is not None:
         for cell_info in cell_infos:
             name, data = cell_info
-            # TODO: vector-valued cell data
-            assert data.shape == (fe.num_cells,), f"cell data wrong shape, get {data.shape}, while num_cells = {fe.num_cells}"
+            assert data.shape[:1] == (fe.num_cells,), f"cell data wrong shape, get {data.shape}, while num_cells = {fe.num_cells}"
             out_mesh.cell_data[name] = [onp.array(data, dtype=onp.float32)]
     if point_infos is not None:
         for point_info in point_infos:
-- 
2.43.0


From 434c3978b324c3c37b6db8450c65afc7a07bb3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:50 +0000
Subject: [PATCH 14/25] fix: walltime works with current JAX

jax.lib.xla_bridge no longer exists, so every function decorated with
walltime raised AttributeError after it had run.
---
 jax_fem/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_fem/utils.py b/jax_fem/utils.py
index f65fee8..5162444 100644
--- a/jax_fem/utils.py
+++ b/jax_fem/utils.py
@@ -187,7 +187,7 @@ def walltime(txt_dir=None, filename=None):
             return_values = func(*list_args, **keyword_args)
             end_time = time.time()
             time_elapsed = end_time - start_time
-            platform = jax.lib.xla_bridge.get_backend().platform
+            platform = jax.default_backend()
             logger.info(
                 f"Time elapsed {time_elapsed} of function {func.__name__} "
                 f"on platform {platform}"
-- 
2.43.0


From 28931b081d4e048204ccc7275d592a7774ff202b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:59 +0000
Subject: [PATCH 15/25] fix: filter uses every design cell within the radius

The k-d tree was asked for exactly 20 neighbours: with fewer than 20 design
cells it returned out-of-range indices (IndexError/ValueError), and on meshes
with more than 20 cells inside the radius the farthest ones were dropped and
the matrix was no longer symmetric.
---
 jax_fem/mma.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/jax_fem/mma.py b/jax_fem/mma.py
index 29e15c6..8e1c2e3 100644
--- a/jax_fem/mma.py
+++ b/jax_fem/mma.py
@@ -43,12 +43,12 @@ def compute_filter_kd_tree(fe):
     J = []
     V = []
     for i in range(flex_num_cells):
-        num_nbs = 20
-        dd, ii = kd_tree.query(flex_cell_centroids[i], num_nbs)
+        ii = kd_tree.query_ball_point(flex_cell_centroids[i], rmin)
         neighbors = np.take(flex_cell_centroids, ii, axis=0)
+        dd = np.linalg.norm(neighbors - flex_cell_centroids[i], axis=1)
         vals = np.where(rmin - dd > 0., rmin - dd, 0.)
-        I += [i]*num_nbs
-        J += ii.tolist()
+        I += [i]*len(ii)
+        J += ii
         V += vals.tolist()
     H_sp = scipy.sparse.csc_array((V, (I, J)), shape=(flex_num_cells, flex_num_cells))
 
-- 
2.43.0


From 5d544cefd0307322b0a0d1a1dd6e462df4047b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:02 +0000
Subject: [PATCH 16/25] fix: compute_filter_kd_tree works with current JAX

numpy.take on a JAX array raises NotImplementedError (the 'raise' mode is not
supported), so no filter could be built and optimize() could not run.
---
 jax_fem/mma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_fem/mma.py b/jax_fem/mma.py
index 8e1c2e3..296451f 100644
--- a/jax_fem/mma.py
+++ b/jax_fem/mma.py
@@ -28,7 +28,7 @@ def compute_filter_kd_tree(fe):
     """This function is created by Tianju. Not from the original code.
     We use k-d tree algorithm to compute the filter.
     """
-    cell_centroids = np.mean(np.take(fe.points, fe.cells, axis=0), axis=1)
+    cell_centroids = np.mean(np.take(np.asarray(fe.points), np.asarray(fe.cells), axis=0), axis=1)
     flex_num_cells = len(fe.flex_inds)
     flex_cell_centroids = np.take(cell_centroids, fe.flex_inds, axis=0)
 
-- 
2.43.0


From 3e1b365bbe7455a7be50459835fdce813e0f6d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:35 +0000
Subject: [PATCH 17/25] fix: plasticity has reverse-mode derivatives at zero
 deviatoric stress

jax.numpy.linalg.norm has no derivative at zero, so vjp through the return
map (used by the adjoint) was NaN for undeformed or purely volumetric states.
---
 applications/finite_plasticity/model.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/applications/finite_plasticity/model.py b/applications/finite_plasticity/model.py
index ce3f7ef..3a9b786 100644
--- a/applications/finite_plasticity/model.py
+++ b/applications/finite_plasticity/model.py
@@ -62,7 +62,13 @@ class Plasticity(Problem):
                 f_bar = np.linalg.det(f)**(-1./3.)*f
                 be_bar_trial = f_bar @ be_bar_old @ f_bar.T
                 s_trial = G*deviatoric(be_bar_trial)
-                yield_f_trial = np.linalg.norm(s_trial) - np.sqrt(2./3.)*(sig0 + H1*alpha_old)
+                # The norm has no derivative at zero deviatoric stress, and both
+                # branches below are evaluated under vmap: guard it, otherwise
+                # reverse-mode derivatives are NaN for volumetric deformation.
+                s_trial_sq = np.sum(s_trial**2)
+                deviatoric_flag = s_trial_sq > 0.
+                s_trial_norm = np.sqrt(np.where(deviatoric_flag, s_trial_sq, 1.))
+                yield_f_trial = np.where(deviatoric_flag, s_trial_norm, 0.) - np.sqrt(2./3.)*(sig0 + H1*alpha_old)
 
                 def elastic_loading():
                     be_bar = be_bar_trial
@@ -74,7 +80,7 @@ class Plasticity(Problem):
                     Ie_bar = 1./3.*np.trace(be_bar_trial)
                     G_bar = Ie_bar*G
                     Delta_gamma = (yield_f_trial/(2.*G_bar))/(1. + H1/(3.*G_bar))
-                    direction = s_trial/np.linalg.norm(s_trial)
+                    direction = s_trial/s_trial_norm
                     s = s_trial - 2.*G_bar*Delta_gamma * direction
                     alpha = alpha_old + np.sqrt(2./3.)*Delta_gamma
                     be_bar = s/G + Ie_bar*np.eye(self.dim)
-- 
2.43.0


From 2ca1b6ba0a6d2b759b05419a3ebda0cb4bdc5fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:14 +0000
Subject: [PATCH 18/25] fix: crystal plasticity uses the current time step

The residual and tangent kernels kept the time step they were first compiled
with, so steps of varying size were solved with a stale dt while the state
update used the current one.
---
 applications/crystal_plasticity/models.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/applications/crystal_plasticity/models.py b/applications/crystal_plasticity/models.py
index bb592c6..66b2b43 100644
--- a/applications/crystal_plasticity/models.py
+++ b/applications/crystal_plasticity/models.py
@@ -116,6 +116,21 @@ class CrystalPlasticity(Problem):
 
         self.internal_vars = [Fp_inv_gp, slip_resistance_gp, slip_gp, rot_mats_gp]
 
+    @property
+    def dt(self):
+        return self._dt
+
+    @dt.setter
+    def dt(self, dt):
+        # The compiled kernels hold the time step as a constant, so they must be
+        # compiled again when it changes (round-off in time points is no change).
+        old_dt = getattr(self, '_dt', None)
+        if old_dt is not None and abs(dt - old_dt) <= 1e-12*abs(old_dt):
+            return
+        self._dt = dt
+        if hasattr(self, 'kernel'):
+            self.pre_jit_fns()
+
     def get_tensor_map(self):
         tensor_map, _ = self.get_maps()
         return tensor_map
-- 
2.43.0


From fe7bb6929b5afa1dfe1ab48851ef7f6cecf19184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:27 +0000
Subject: [PATCH 19/25] fix: spectral derivative handles eigenvalues that are
 repeated up to round-off

eigh returns repeated eigenvalues with a gap of a few ulp, which the exact
comparison with zero missed: the divided difference was then pure round-off
and the derivative wrong by its own size.
---
 applications/phase_field_fracture/eigen.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/applications/phase_field_fracture/eigen.py b/applications/phase_field_fracture/eigen.py
index 36a3ba3..f8e3e27 100644
--- a/applications/phase_field_fracture/eigen.py
+++ b/applications/phase_field_fracture/eigen.py
@@ -57,9 +57,12 @@ def get_eigen_f_custom(fn):
 
         diff_evals = evals[:, None] - evals[None, :]
         diff_fvals = fvals[:, None] - fvals[None, :]
-        diff_grads = grads[:, None]
+        mean_grads = 0.5*(grads[:, None] + grads[None, :])
 
-        theta = np.where(diff_evals == 0., diff_grads, diff_fvals/diff_evals)
+        # Repeated eigenvalues come out of eigh with a round-off gap, for which
+        # the quotient is meaningless: use the limit below a relative gap.
+        repeated = np.abs(diff_evals) <= np.sqrt(np.finfo(evals.dtype).eps)*np.max(np.abs(evals))
+        theta = np.where(repeated, mean_grads, diff_fvals/np.where(repeated, 1., diff_evals))
 
         tmp = G * theta[:, :, None, None, None, None]
         tmp1 = np.sum(tmp, axis=(0, 1))
-- 
2.43.0


From 6381a382104fa685c413662a5190128a7ace6d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:24 +0000
Subject: [PATCH 20/25] fix: explicit dendrite step releases the latent heat of
 the noise term

The temperature equation takes K*(p - p_old) from the phase equation, but the
noise part of the phase increment was left out, so heat was not conserved
(the implicit and finite-difference versions include it).
---
 applications/dendrite/explicit_fem/example.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/applications/dendrite/explicit_fem/example.py b/applications/dendrite/explicit_fem/example.py
index a248dd8..5c6422b 100644
--- a/applications/dendrite/explicit_fem/example.py
+++ b/applications/dendrite/explicit_fem/example.py
@@ -180,7 +180,8 @@ class SolidificationForce(Problem):
             tau = self.params['tau']
             val71 = np.sum(tmp1[:, None, :, :] * cell_v_grads_JxW_T, axis=(0, -1))
             val72 = np.sum(tmp2[:, None, None] * self.fe_T.shape_vals[:, :, None] * cell_JxW_T[:, None, None], axis=0)
-            val7 = K / tau * (val71 + val72)
+            val73 = np.sum(tmp4[:, None, None] * self.fe_T.shape_vals[:, :, None] * cell_JxW_T[:, None, None], axis=0)
+            val7 = K / tau * (val71 + val72 + val73)
 
             weak_form = [val1 + val2 + val4, val5 + val7] # [(num_nodes_p, vec_p), (num_nodes_T, vec_T)]
 
-- 
2.43.0


From e5797e5a787c782fd2d559dd44d685d8b89f29f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:17 +0000
Subject: [PATCH 21/25] fix: explicit_fd dendrite: recompute the gradient of
 eps**2 in every step

---
 applications/dendrite/explicit_fd/example.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/applications/dendrite/explicit_fd/example.py b/applications/dendrite/explicit_fd/example.py
index dab0136..55d9190 100644
--- a/applications/dendrite/explicit_fd/example.py
+++ b/applications/dendrite/explicit_fd/example.py
@@ -91,7 +91,7 @@ def simulation():
         return arr
 
     @partial(jax.jit, static_argnums=(0,1))
-    def phase_field(dx, dy, eps, eps_prime, p_x, p_y, p, T):    
+    def phase_field(dx, dy, eps, eps_prime, eps2_x, eps2_y, p_x, p_y, p, T):
         part1, _ = grad(eps*eps_prime*p_y, dx, dy)
         _, part2 = grad(eps*eps_prime*p_x, dx, dy)
         part3 = eps2_x*p_x + eps2_y*p_y
@@ -150,7 +150,7 @@ def simulation():
         eps, eps_prime = get_eps(theta)
         eps2_x, eps2_y = grad(eps**2, hx, hy)
         
-        p_new = phase_field(hx, hy, eps, eps_prime, p_x, p_y, p, T) 
+        p_new = phase_field(hx, hy, eps, eps_prime, eps2_x, eps2_y, p_x, p_y, p, T) 
         p_new = zero_flux_BC(p_new)
         d_p = p_new - p
         
-- 
2.43.0


From 4799d59c31c7fd639a9f3bf4c6d72c9ddbd6c321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:17 +0000
Subject: [PATCH 22/25] fix: explicit_fd dendrite: seed the nucleus on grids
 with nx != ny

---
 applications/dendrite/explicit_fd/example.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/dendrite/explicit_fd/example.py b/applications/dendrite/explicit_fd/example.py
index 55d9190..d77d5e4 100644
--- a/applications/dendrite/explicit_fd/example.py
+++ b/applications/dendrite/explicit_fd/example.py
@@ -140,7 +140,7 @@ def simulation():
     eps2_y = np.zeros((nx,ny))
 
     # circle
-    i, j = onp.meshgrid(onp.arange(nx), onp.arange(ny))
+    i, j = onp.meshgrid(onp.arange(nx), onp.arange(ny), indexing='ij')
     mask =  ((i - nx/2.)**2 + (j - ny/2.)**2) < 20.
     p = p.at[mask].set(1.)
  
-- 
2.43.0


From 39d5df694f122c4106f6cebf09915a07ca77d9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:17 +0000
Subject: [PATCH 23/25] fix: parallel drivers: call the collective zeroRows on
 every rank

---
 applications/parallel/example.py     | 7 +++----
 applications/parallel/poisson_mpi.py | 2 +-
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/applications/parallel/example.py b/applications/parallel/example.py
index 0e8fd72..de2140a 100644
--- a/applications/parallel/example.py
+++ b/applications/parallel/example.py
@@ -329,10 +329,9 @@ def main():
             if rstart <= gd < rend:
                 boundary_dofs_set.add(gd)
     boundary_dofs = sorted(boundary_dofs_set)
-    if boundary_dofs:
-        mat.zeroRows(_petsc_int_array(boundary_dofs), diag=1.0)
-        for dof in boundary_dofs:
-            b.setValue(dof, 0.0)
+    mat.zeroRows(_petsc_int_array(boundary_dofs), diag=1.0)  # collective: every rank calls it
+    for dof in boundary_dofs:
+        b.setValue(dof, 0.0)
     mat.assemblyBegin()
     mat.assemblyEnd()
     b.assemblyBegin()
diff --git a/applications/parallel/poisson_mpi.py b/applications/parallel/poisson_mpi.py
index 6e13569..35cf625 100644
--- a/applications/parallel/poisson_mpi.py
+++ b/applications/parallel/poisson_mpi.py
@@ -321,8 +321,8 @@ def main():
         mat.assemblyBegin()
         mat.assemblyEnd()
 
+        mat.zeroRows(_petsc_int(boundary_owned), diag=1.0)  # collective: every rank calls it
         if boundary_owned:
-            mat.zeroRows(_petsc_int(boundary_owned), diag=1.0)
             b.setValues(
                 _petsc_int(boundary_owned),
                 np.zeros(len(boundary_owned), dtype=np.float64),
-- 
2.43.0


From 72acd45f74982b23a1da0269d7bfad73d5b187dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:17 +0000
Subject: [PATCH 24/25] fix: poisson_mpi: keep off-rank contributions of ranks
 that own no row

---
 applications/parallel/poisson_mpi.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/applications/parallel/poisson_mpi.py b/applications/parallel/poisson_mpi.py
index 35cf625..4b07276 100644
--- a/applications/parallel/poisson_mpi.py
+++ b/applications/parallel/poisson_mpi.py
@@ -144,9 +144,6 @@ def scatter_global_coo(
     ng, _ = mat.getSize()
     rstart, rend = mat.getOwnershipRange()
     nlocal = rend - rstart
-    if nlocal == 0:
-        if timers and rank == 0: timers["prep"] = timers.get("prep", 0.0) + (tw() - t0)
-        return
     t4 = tw()
     own = (r >= rstart) & (r < rend)
     # Off-rows (need RCV, always in COO)
-- 
2.43.0


From a46e1eb8f28493a35653495d6aeb6d5c67545c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:43 +0000
Subject: [PATCH 25/25] fix: poisson_mpi: eliminate Dirichlet columns too,
 CG+GAMG needs a symmetric matrix

---
 applications/parallel/poisson_mpi.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/applications/parallel/poisson_mpi.py b/applications/parallel/poisson_mpi.py
index 4b07276..a77024f 100644
--- a/applications/parallel/poisson_mpi.py
+++ b/applications/parallel/poisson_mpi.py
@@ -318,7 +318,8 @@ def main():
         mat.assemblyBegin()
         mat.assemblyEnd()
 
-        mat.zeroRows(_petsc_int(boundary_owned), diag=1.0)  # collective: every rank calls it
+        # columns too (the boundary increments are zero): CG+GAMG needs a symmetric matrix
+        mat.zeroRowsColumns(_petsc_int(boundary_owned), diag=1.0)  # collective: every rank calls it
         if boundary_owned:
             b.setValues(
                 _petsc_int(boundary_owned),
-- 
2.43.0

