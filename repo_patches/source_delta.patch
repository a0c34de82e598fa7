From 52a2b1dfd32e23b2a6635ebabc279a37194b1806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:42 +0000
Subject: [PATCH 01/35] fix: hinge pre-stabilization must reduce the drift
 error instead of amplifying it

---
 rainbow/simulators/prox_rigid_bodies/constraints/hinges.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/constraints/hinges.py b/rainbow/simulators/prox_rigid_bodies/constraints/hinges.py
index e8e4491..e986344 100644
--- a/rainbow/simulators/prox_rigid_bodies/constraints/hinges.py
+++ b/rainbow/simulators/prox_rigid_bodies/constraints/hinges.py
@@ -213,6 +213,8 @@ class Hinges(Problem):
             g[offset:offset + 3] = (r_c - r_p)
             g[offset + 3] = t_p.dot(u)
             g[offset + 4] = b_p.dot(u)
-        rate = engine.params.gap_reduction / dt
+        # The right-hand side is added to the constraint velocity, hence the rate must be negative in order to
+        # drive the drift errors towards zero.
+        rate = -engine.params.gap_reduction / dt
         g *= rate
         return g
-- 
2.43.0


From 03a5b78faaeb24cbdf8c19a9956b4006c3e004b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:01 +0000
Subject: [PATCH 02/35] fix: direction_of_most_variance must return an
 eigenvector (a column), not a row of the eigenvector matrix

---
 rainbow/math/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/math/functions.py b/rainbow/math/functions.py
index 8b2c133..0cef8f0 100644
--- a/rainbow/math/functions.py
+++ b/rainbow/math/functions.py
@@ -45,4 +45,4 @@ def direction_of_most_variance(P):
     """
     _, values, vectors = PCA(P)            # Returns eigenvalue not sorted
     largest_eigenv_idx = np.argmax(values)
-    return vectors[largest_eigenv_idx]
+    return vectors[:, largest_eigenv_idx]  # Eigenvectors are stored as columns
-- 
2.43.0


From 39e4d5e2dd5994c9c77275951d506441041d7f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:01 +0000
Subject: [PATCH 03/35] fix: dRdv_i mixed a re-parameterized quaternion with a
 derivative that is not

---
 rainbow/math/expmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/math/expmap.py b/rainbow/math/expmap.py
index 50442c5..a45b485 100644
--- a/rainbow/math/expmap.py
+++ b/rainbow/math/expmap.py
@@ -225,7 +225,7 @@ def dRdv_i(v, i):
     :param i:
     :return:
     """
-    q = exp(v)
+    q = exp(v, reparm=False)  # dQdv_i does not re-parameterize v, so neither must we
     dQdvi = dQdv_i(v, i)
     dRdvi = __dRdv_i(q, dQdvi)
     return dRdvi
\ No newline at end of file
-- 
2.43.0


From 1b3f00bf044f8bf3a4c6ac193ea278a976646a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:01 +0000
Subject: [PATCH 04/35] fix: to_str lost the sign of a negative leading
 coefficient

---
 rainbow/math/polynomial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rainbow/math/polynomial.py b/rainbow/math/polynomial.py
index 7a096fd..6158188 100644
--- a/rainbow/math/polynomial.py
+++ b/rainbow/math/polynomial.py
@@ -314,8 +314,8 @@ def to_str(P: Poly) -> str:
         if len(polynomial) > 0:
             if len(term) > 0:
                 polynomial += " " + sign + " " + term
-        else:
-            polynomial = term
+        elif len(term) > 0:
+            polynomial = "-" + term if sign == "-" else term
     return polynomial
 
 
-- 
2.43.0


From c9c72e2957802ce1a984960c544b4b3faf7e00da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:01 +0000
Subject: [PATCH 05/35] fix: ortonormalize must not overwrite its input matrix

---
 rainbow/math/matrix3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rainbow/math/matrix3.py b/rainbow/math/matrix3.py
index 6e09ba1..d52a6b6 100644
--- a/rainbow/math/matrix3.py
+++ b/rainbow/math/matrix3.py
@@ -53,8 +53,8 @@ def star(v):
 
 
 def ortonormalize(A):
-    row0 = A[0, :]
-    row1 = A[1, :]
+    row0 = np.array(A[0, :], dtype=np.float64)  # Copies, so the input matrix is not changed
+    row1 = np.array(A[1, :], dtype=np.float64)
     l0 = np.linalg.norm(row0)
     if l0 > 0.0:
         row0 /= l0
-- 
2.43.0


From e00d52fbdf12bad0968fd986f38848dd0a703eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:15 +0000
Subject: [PATCH 06/35] fix: log of the identity quaternion divided by zero

---
 rainbow/math/expmap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rainbow/math/expmap.py b/rainbow/math/expmap.py
index a45b485..42e42ee 100644
--- a/rainbow/math/expmap.py
+++ b/rainbow/math/expmap.py
@@ -95,10 +95,10 @@ def log(q):
         #    v = 2*t*n = 2*t*w / sin(t)
         #
         # If q is the identity quaternion the log(q) should map to zero vector. Recall that
-        # identity is given by q = [1 0 0 0] the above works for this.
+        # identity is given by q = [1 0 0 0]. In this case the limit 2*t/sin(t) = 2 is used.
         t = acos(q[0])
         s = sin(t)
-        f = 2 * t / s
+        f = 2 * t / s if s > 0.0 else 2.0
         return V3.make(f * q[1], f * q[2], f * q[3])
     return V3.zero()
 
-- 
2.43.0


From 9cd1f0960949513d01a9606be4b89472011f7052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:19 +0000
Subject: [PATCH 07/35] fix: create_surfaces_interaction keeps its own copy of
 the friction coefficients

---
 rainbow/simulators/prox_rigid_bodies/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/api.py b/rainbow/simulators/prox_rigid_bodies/api.py
index 53c3bfb..801a239 100644
--- a/rainbow/simulators/prox_rigid_bodies/api.py
+++ b/rainbow/simulators/prox_rigid_bodies/api.py
@@ -669,7 +669,7 @@ def create_surfaces_interaction(engine, A: str, B: str, epsilon: float, mu) -> N
     key = tuple(tmp)
     behaviour = SurfacesInteraction()
     behaviour.epsilon = epsilon
-    behaviour.mu = mu
+    behaviour.mu = np.copy(mu)
     engine.surfaces_interactions.storage[key] = behaviour
 
 
-- 
2.43.0


From 62e6c0fc8125f87610fa242c68fd14e3765c127c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:00 +0000
Subject: [PATCH 08/35] fix: grid gradient divided local cell coordinates by
 the grid origin instead of the spacing

---
 rainbow/geometry/grid3.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rainbow/geometry/grid3.py b/rainbow/geometry/grid3.py
index 2f052c2..d7cea98 100644
--- a/rainbow/geometry/grid3.py
+++ b/rainbow/geometry/grid3.py
@@ -206,9 +206,9 @@ def get_gradient(grid, p):
     d101 = grid.get_node_value(i + 1, j, k + 1)
     d110 = grid.get_node_value(i + 1, j + 1, k)
     d111 = grid.get_node_value(i + 1, j + 1, k + 1)
-    s = (p[0] - (i * grid.spacing[0] + grid.min_coord[0])) / grid.min_coord[0]
-    t = (p[1] - (j * grid.spacing[1] + grid.min_coord[1])) / grid.min_coord[1]
-    u = (p[2] - (k * grid.spacing[2] + grid.min_coord[2])) / grid.min_coord[2]
+    s = (p[0] - (i * grid.spacing[0] + grid.min_coord[0])) / grid.spacing[0]
+    t = (p[1] - (j * grid.spacing[1] + grid.min_coord[1])) / grid.spacing[1]
+    u = (p[2] - (k * grid.spacing[2] + grid.min_coord[2])) / grid.spacing[2]
 
     #
     #             011
-- 
2.43.0


From 0708124b3ad74a7db13e0af07f5141559deeb085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:00 +0000
Subject: [PATCH 09/35] fix: loop subdivision of a tetrahedron inverted the
 child at its first corner

---
 rainbow/geometry/volume_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/geometry/volume_mesh.py b/rainbow/geometry/volume_mesh.py
index 3ba8ee0..a8f4817 100644
--- a/rainbow/geometry/volume_mesh.py
+++ b/rainbow/geometry/volume_mesh.py
@@ -210,7 +210,7 @@ def create_loop_subdivision(V, T):
         jm, pjm = create_midpoint(j, m, pj, pm, lut, offset)
         km, pkm = create_midpoint(k, m, pk, pm, lut, offset)
         T[e] = [im, jm, km, m]
-        T[last] = [ij, ik, im, i]
+        T[last] = [ij, im, ik, i]
         T[last + 1] = [ij, jk, jm, j]
         T[last + 2] = [ik, km, jk, k]
         T[last + 3] = [ik, im, ij, jm]
-- 
2.43.0


From 751b96c679427c99e2ba67d9f77868f0fb3d5f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:09 +0000
Subject: [PATCH 10/35] fix: subtree height of a BVH was stored as a (height,
 next free index) tuple

---
 rainbow/geometry/kdop_bvh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/geometry/kdop_bvh.py b/rainbow/geometry/kdop_bvh.py
index 944012e..d26c2bb 100644
--- a/rainbow/geometry/kdop_bvh.py
+++ b/rainbow/geometry/kdop_bvh.py
@@ -203,7 +203,7 @@ def make_bvh(X, T, K, N, envelope=0.0):
         # Next generate the subtree
         root_idx = 0
         free_idx = 1
-        sub_tree.height = _make_sub_tree(root_idx, free_idx, first, last, sub_tree)
+        sub_tree.height, _ = _make_sub_tree(root_idx, free_idx, first, last, sub_tree)
         # Finally store the sub-tree
         tree.chunks.append(sub_tree)
 
-- 
2.43.0


From a9abdbb42eba1e61eb75aa9ba563ab826205f50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:31 +0000
Subject: [PATCH 11/35] fix: corotational model decomposed a single deformation
 gradient with the array version and crashed

---
 rainbow/simulators/prox_soft_bodies/mechanics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rainbow/simulators/prox_soft_bodies/mechanics.py b/rainbow/simulators/prox_soft_bodies/mechanics.py
index 62d695b..15229b7 100644
--- a/rainbow/simulators/prox_soft_bodies/mechanics.py
+++ b/rainbow/simulators/prox_soft_bodies/mechanics.py
@@ -211,7 +211,7 @@ class COR:
         :param mu_in:       The second Lame parameter
         :return:            The first Piola-Kirchhoff stress tensor
         """
-        R, S = M3.polar_decomposition_array(F)
+        R, S = M3.polar_decomposition(F)
         return (lambda_in * np.trace(S - np.eye(3))) * R + (2 * mu_in) * (F - R)
 
     @staticmethod
@@ -222,7 +222,7 @@ class COR:
         :param mu_in:       The second Lame parameter
         :return:            The energy density.
         """
-        R, S = M3.polar_decomposition_array(F)
+        R, S = M3.polar_decomposition(F)
         #  mu ||F - R||_F^2 + (lambda/2) tr^2 (R^T F - I)
         return mu_in * np.square(np.linalg.norm(F - R, ord="fro")) + (
             lambda_in / 2
-- 
2.43.0


From 511a792272ee7cbbd7ad9902eb33542b060710c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:31 +0000
Subject: [PATCH 12/35] fix: stable Neo-Hookean energy density must use the
 natural logarithm

---
 rainbow/simulators/prox_soft_bodies/mechanics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_soft_bodies/mechanics.py b/rainbow/simulators/prox_soft_bodies/mechanics.py
index 15229b7..309e3a8 100644
--- a/rainbow/simulators/prox_soft_bodies/mechanics.py
+++ b/rainbow/simulators/prox_soft_bodies/mechanics.py
@@ -159,7 +159,7 @@ class SNH:
         return (
             0.5 * mu_ * (I_C - 3)
             + 0.5 * lambda_ * np.square(J - alpha)
-            - 0.5 * mu_ * np.log2(I_C + 1)
+            - 0.5 * mu_ * np.log(I_C + 1)
         )
 
 
-- 
2.43.0


From 4150903318a41cb72b32d95e10400f11e23b0765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:31 +0000
Subject: [PATCH 13/35] fix: contact normals of soft bodies did not rotate with
 the body

---
 rainbow/simulators/prox_soft_bodies/collision_detection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_soft_bodies/collision_detection.py b/rainbow/simulators/prox_soft_bodies/collision_detection.py
index 49723f4..3b074b8 100644
--- a/rainbow/simulators/prox_soft_bodies/collision_detection.py
+++ b/rainbow/simulators/prox_soft_bodies/collision_detection.py
@@ -263,7 +263,8 @@ def _xform_contact_to_world(p, n, XA, XB, X0B):
     omegaA = BC.compute_barycentric_tetrahedron(XA[0], XA[1], XA[2], XA[3], p)
     D = XB[0:3] - XB[3]
     D0 = X0B[0:3] - X0B[3]
-    n = D.dot(np.linalg.solve(D0, n))
+    # The rows of D and D0 are edge vectors, so a gradient is transformed by inv(D) D0.
+    n = np.linalg.solve(D, D0.dot(n))
     return p, n, omegaA, omegaB
 
 
-- 
2.43.0


From a6b8c24af793c97f8e8a31166514186a210c6ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:01 +0000
Subject: [PATCH 14/35] fix: contacts between soft materials without a defined
 interaction crashed instead of using the default

---
 rainbow/simulators/prox_soft_bodies/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_soft_bodies/types.py b/rainbow/simulators/prox_soft_bodies/types.py
index 39cad06..f06f25d 100644
--- a/rainbow/simulators/prox_soft_bodies/types.py
+++ b/rainbow/simulators/prox_soft_bodies/types.py
@@ -35,7 +35,7 @@ class SurfacesInteractionLibrary:
         key = (A, B) if A < B else (B, A)
         if key in self.storage:
             return self.storage[key]
-        return None
+        return self.storage[("default", "default")]
 
     def exist_interaction(self, A, B):
         """
-- 
2.43.0


From 121981dc0286494367e83f0623692bce300e1a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:01 +0000
Subject: [PATCH 15/35] fix: soft body post-stabilization used three rows per
 contact for a Jacobian with four and crashed

---
 rainbow/simulators/prox_soft_bodies/solver.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rainbow/simulators/prox_soft_bodies/solver.py b/rainbow/simulators/prox_soft_bodies/solver.py
index e1dc018..3c2c5c1 100644
--- a/rainbow/simulators/prox_soft_bodies/solver.py
+++ b/rainbow/simulators/prox_soft_bodies/solver.py
@@ -963,11 +963,11 @@ def apply_post_stabilization(J, WJT, engine, stats, debug_on):
         timer = Timer("apply_post_stabilization")
         timer.start()
     K = len(engine.contact_points)
-    g = np.zeros(3 * K, dtype=np.float64)
+    g = np.zeros(4 * K, dtype=np.float64)
     for k in range(K):
         cp = engine.contact_points[k]
         if cp.g < -engine.params.min_gap_value:
-            g[3 * k + 0] = cp.g
+            g[4 * k + 0] = cp.g
 
     # If the gap to correct is all zeros, then just return
     if not g.any():
@@ -984,10 +984,11 @@ def apply_post_stabilization(J, WJT, engine, stats, debug_on):
     # TODO 2021-12-07 Kenny: This seems a bit silly to make this conversion. It should be abstracted
     #  away such that a developer can focus more on the high-level aspects of time integration and
     #  writing solver code.
-    np.reshape(delta_x, (-1, 3))
+    delta_x = np.reshape(delta_x, (-1, 3))
     # ---------------------------------------------------------------------
 
     x = get_position_vector(engine)
+    apply_boundary_conditions_on_velocities(delta_x, engine)
     x += delta_x
     set_position_vector(x, engine)
 
-- 
2.43.0


From 371d3c73e9b85e66754759356d55c2aaeaedec67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:01 +0000
Subject: [PATCH 16/35] fix: fixed soft bodies moved like free ones

---
 rainbow/simulators/prox_soft_bodies/solver.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_soft_bodies/solver.py b/rainbow/simulators/prox_soft_bodies/solver.py
index 3c2c5c1..e6d50da 100644
--- a/rainbow/simulators/prox_soft_bodies/solver.py
+++ b/rainbow/simulators/prox_soft_bodies/solver.py
@@ -1022,7 +1022,9 @@ def apply_boundary_conditions_on_velocities(u: np.array, engine) -> None:
     :param engine:      The current engine instance we are working with.
     """
     for body in engine.bodies.values():
-        if len(body.dirichlet_conditions) > 0:
+        if body.is_fixed:
+            u[body.offset : body.offset + len(body.u)] = 0.0
+        elif len(body.dirichlet_conditions) > 0:
             # 2022-03-24 Kenny: TODO This is performance wise not the best
             #                    way to do it. Indices could be precomputed.
             indices = np.array([dc.idx for dc in body.dirichlet_conditions])
-- 
2.43.0


From ff05dd2224368b446c779cd5dd7d39d7151b79b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:41 +0000
Subject: [PATCH 17/35] fix: contacts closer than half a unit to the border of
 the distance field were dropped

---
 rainbow/simulators/prox_rigid_bodies/collision_detection.py | 2 +-
 rainbow/simulators/prox_soft_bodies/collision_detection.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/collision_detection.py b/rainbow/simulators/prox_rigid_bodies/collision_detection.py
index 5ec9c91..db4f09a 100644
--- a/rainbow/simulators/prox_rigid_bodies/collision_detection.py
+++ b/rainbow/simulators/prox_rigid_bodies/collision_detection.py
@@ -169,7 +169,7 @@ def _compute_contacts(engine: Engine, bodyA: RigidBody, bodyB: RigidBody, triang
         # We have now optimized for the deepest penetrating point on the triangle, and now we can use this
         # point and the SDF from body B to generate a contact point between body A and body B. First we test
         # if our triangle point is even inside axis aligned bounding box (AABB) around the SDF of body B.
-        if GRID.is_inside(bodyB.shape.grid, x_i):
+        if GRID.is_inside(bodyB.shape.grid, x_i, boundary=0.0):
             # If we are inside the AABB then we look up the actual SDF value at the point. If the SDF value
             # is non-positive then we know we have a "true" contact point.
             phi = GRID.get_value(bodyB.shape.grid, x_i)
diff --git a/rainbow/simulators/prox_soft_bodies/collision_detection.py b/rainbow/simulators/prox_soft_bodies/collision_detection.py
index 3b074b8..ca5edc5 100644
--- a/rainbow/simulators/prox_soft_bodies/collision_detection.py
+++ b/rainbow/simulators/prox_soft_bodies/collision_detection.py
@@ -349,7 +349,7 @@ def _compute_contacts(engine, stats, bodyA, bodyB, results, debug_on):
         # We have now optimized for the deepest penetrating point on the triangle, and now we can use this
         # point and the SDF from body B to generate a contact point between body A and body B. First we test
         # if our triangle point is even inside axis aligned bounding box (AABB) around the SDF of body B.
-        if GRID.is_inside(bodyB.grid, x_i):
+        if GRID.is_inside(bodyB.grid, x_i, boundary=0.0):
             # If we are inside the AABB then we look up the actual SDF value at the point. If the SDF value
             # is non-positive then we know we have a "true" contact point.
             phi = GRID.get_value(bodyB.grid, x_i)
-- 
2.43.0


From 2c7d353afd2bc7fa754a799b2ed9cd592c2d28c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:00 +0000
Subject: [PATCH 18/35] fix: contact problem of soft bodies used velocities
 that ignored the boundary conditions

---
 rainbow/simulators/prox_soft_bodies/solver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rainbow/simulators/prox_soft_bodies/solver.py b/rainbow/simulators/prox_soft_bodies/solver.py
index e6d50da..9822dc8 100644
--- a/rainbow/simulators/prox_soft_bodies/solver.py
+++ b/rainbow/simulators/prox_soft_bodies/solver.py
@@ -1092,6 +1092,8 @@ class SemiImplicitStepper:
         # ---------------------------------------------------------------------
 
         u_prime = u + dt * self.W.dot(F_tot)
+        # Contacts must see the velocities that the constrained nodes really have.
+        apply_boundary_conditions_on_velocities(np.reshape(u_prime, (-1, 3)), engine)
 
         # TODO 2021-12-07 Kenny: The whole collision detection system uses body positions (state info) stored in body
         #  instances and not stored in global position vectors. This provides a design problem if one wish to perform
-- 
2.43.0


From 47efb33d6a3d9dc2485455e4cea825151001ae6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:59 +0000
Subject: [PATCH 19/35] fix: inserting into a hash cell returned objects of
 previous time steps

---
 rainbow/geometry/spatial_hashing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rainbow/geometry/spatial_hashing.py b/rainbow/geometry/spatial_hashing.py
index 68df209..7cfe262 100644
--- a/rainbow/geometry/spatial_hashing.py
+++ b/rainbow/geometry/spatial_hashing.py
@@ -189,8 +189,9 @@ class HashGird:
             self.hash_tbale[hv] = HashCell()
             self.hash_tbale[hv].add((tri_idx, body_idx, tri_aabb), time_stamp)
         else:
-            overlaps = self.hash_tbale[hv].object_list
             self.hash_tbale[hv].add((tri_idx, body_idx, tri_aabb), time_stamp)
+            # The list is read after the insertion, which clears objects from older time stamps.
+            overlaps = self.hash_tbale[hv].object_list[:-1]
         return overlaps
     
     @classmethod
-- 
2.43.0


From 1ec9385ec0922cb3e8308d0334041b253c825725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:59 +0000
Subject: [PATCH 20/35] fix: triangles with any equal coordinate were taken to
 share a vertex

---
 rainbow/simulators/prox_soft_bodies/collision_detection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_soft_bodies/collision_detection.py b/rainbow/simulators/prox_soft_bodies/collision_detection.py
index ca5edc5..67a5e82 100644
--- a/rainbow/simulators/prox_soft_bodies/collision_detection.py
+++ b/rainbow/simulators/prox_soft_bodies/collision_detection.py
@@ -50,7 +50,7 @@ def _is_share_vertex(tri1, tri2):
     Returns:
         bool: True if the two triangles share a vertex, False otherwise
     """
-    return len(np.intersect1d(np.array(tri1), np.array(tri2))) > 0
+    return any(np.array_equal(p, q) for p in tri1 for q in tri2)
 
 
 def _triangle_intersection(tri1, tri2):
-- 
2.43.0


From 2c5856722c76335a51b5e5414c6a49f8ae9ce591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:20 +0000
Subject: [PATCH 21/35] fix: triangle intersection test missed nine of ten
 intersections and reported separated triangles

---
 .../prox_soft_bodies/collision_detection.py   | 62 +++++++++----------
 1 file changed, 29 insertions(+), 33 deletions(-)

diff --git a/rainbow/simulators/prox_soft_bodies/collision_detection.py b/rainbow/simulators/prox_soft_bodies/collision_detection.py
index 67a5e82..70546ba 100644
--- a/rainbow/simulators/prox_soft_bodies/collision_detection.py
+++ b/rainbow/simulators/prox_soft_bodies/collision_detection.py
@@ -57,11 +57,11 @@ def _triangle_intersection(tri1, tri2):
     """ Test if two triangles of a same body intersect
         To achieve performance, this function is adapted from Moller-Trumbore intersection algorithm,
         which is described in https://en.wikipedia.org/wiki/M%C3%B6ller%E2%80%93Trumbore_intersection_algorithm.
-        The idea is to check if the intersection point of the two triangles is inside both triangles.
-        Steps:
-        1. Check if the two triangles are parallel or not, if they are parallel, return False
-        2. Check if the intersection point is inside the first triangle, if not, return False
-        3. Check if the intersection point is inside the second triangle, if inside, return True, otherwise return False
+        Two triangles intersect if an edge of one of them passes through the other one.
+        Steps, for each edge of each triangle:
+        1. Skip edges that are parallel to the other triangle
+        2. Skip edges that do not reach the plane of the other triangle
+        3. Check if the point where the edge meets the plane is inside the other triangle, if inside, return True
         
     Args:
         tri1 (ArrayLike): coordinates of the first triangle
@@ -70,34 +70,30 @@ def _triangle_intersection(tri1, tri2):
     Returns:
         bool: True if the two triangles intersect, False otherwise
     """
-    v1, v2, v3 = tri1
-    u1, u2, u3 = tri2
-
-    e1 = v2 - v1
-    e2 = v3 - v1
-    normal_tri2 = np.cross(u2 - u1, u3 - u1)
-    a = np.dot(e1, normal_tri2)
-
-    # Check if the two triangles are parallel or not
-    if a > -np.finfo(float).eps and a < np.finfo(float).eps:
-        return False 
-
-    # Check the intersection point is inside the triangle(tri1)
-    f = 1.0/a
-    s = u1 - v1
-    u = f * np.dot(s, normal_tri2)
-    if u < 0.0 or u > 1.0:
-        return False
-
-    q = np.cross(s, e1)
-    v = f * np.dot(u2 - u1, q)
-    if v < 0.0 or u + v > 1.0:
-        return False
-
-    # Check the intersection point is also inside the other triangle(tri2)
-    t = f * np.dot(e2, q)
-    if t > np.finfo(float).eps:
-        return True
+    for P, Q in ((tri1, tri2), (tri2, tri1)):
+        d1 = Q[1] - Q[0]
+        d2 = Q[2] - Q[0]
+        normal = np.cross(d1, d2)
+        for i in range(3):
+            e = P[(i + 1) % 3] - P[i]
+            a = np.dot(e, normal)
+
+            # Check if the edge is parallel to the plane of the other triangle
+            if abs(a) < np.finfo(float).eps:
+                continue
+
+            # Check if the edge reaches the plane of the other triangle
+            s = Q[0] - P[i]
+            t = np.dot(s, normal) / a
+            if t < 0.0 or t > 1.0:
+                continue
+
+            # Check if the intersection point is inside the other triangle
+            q = np.cross(s, e)
+            u = np.dot(d2, q) / a
+            v = -np.dot(d1, q) / a
+            if u >= 0.0 and v >= 0.0 and u + v <= 1.0:
+                return True
 
     return False
 
-- 
2.43.0


From e75587beaaf906764298e3cd9f5e7f281b770024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:36 +0000
Subject: [PATCH 22/35] fix: a soft body with a degenerate mesh was left half
 initialized in the engine

---
 rainbow/simulators/prox_soft_bodies/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_soft_bodies/api.py b/rainbow/simulators/prox_soft_bodies/api.py
index 9585287..4066cc3 100644
--- a/rainbow/simulators/prox_soft_bodies/api.py
+++ b/rainbow/simulators/prox_soft_bodies/api.py
@@ -37,7 +37,6 @@ def create_soft_body(engine, body_name, V, T) -> None:
     # Create body
     body = SoftBody(body_name)
     body.idx = len(engine.bodies)
-    engine.bodies[body_name] = body
 
     # Improve spatial/memory layout of volume mesh
     axis = FUNC.direction_of_most_variance(V)
@@ -96,6 +95,7 @@ def create_soft_body(engine, body_name, V, T) -> None:
     # index offset into this global space.
     body.offset = engine.number_of_nodes
     engine.number_of_nodes += len(body.x0)
+    engine.bodies[body_name] = body
 
     
 
-- 
2.43.0


From 2d4c767ca99e4139f16ddefb5cd40594454efd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:36 +0000
Subject: [PATCH 23/35] fix: soft bodies without a material were not given the
 default one and could not be simulated

---
 rainbow/simulators/prox_soft_bodies/api.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rainbow/simulators/prox_soft_bodies/api.py b/rainbow/simulators/prox_soft_bodies/api.py
index 4066cc3..0528d53 100644
--- a/rainbow/simulators/prox_soft_bodies/api.py
+++ b/rainbow/simulators/prox_soft_bodies/api.py
@@ -96,6 +96,7 @@ def create_soft_body(engine, body_name, V, T) -> None:
     body.offset = engine.number_of_nodes
     engine.number_of_nodes += len(body.x0)
     engine.bodies[body_name] = body
+    set_material(engine, body_name, "default")
 
     
 
-- 
2.43.0


From 554dfede029993d8621ac7ca95a7c2c1750eaa5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:36 +0000
Subject: [PATCH 24/35] fix: parallel Gauss-Seidel ignored part of the updates
 made by the previous colors

---
 rainbow/simulators/proximal_contact/gauss_seidel_solver.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/rainbow/simulators/proximal_contact/gauss_seidel_solver.py b/rainbow/simulators/proximal_contact/gauss_seidel_solver.py
index 8d16276..a8c0afd 100644
--- a/rainbow/simulators/proximal_contact/gauss_seidel_solver.py
+++ b/rainbow/simulators/proximal_contact/gauss_seidel_solver.py
@@ -105,10 +105,7 @@ class ParallelGaussSeidelSolver(SolverInterface):
         w0 = self.WJT.dot(self.x)
         delta_ws = np.zeros((self.WJT.shape[1]//4, w0.shape[0]), dtype=np.float64)
         for color_group in color_groups.values():
-            w = w0.copy()
-            block_start, _ = color_group[0]
-            for i in range(block_start // 4):
-                w += delta_ws[i]
+            w = w0 + np.sum(delta_ws, axis=0)
 
             self.x, delta_ws = sweep_worker(np.array(color_group), 
                                             self.J.toarray(), 
-- 
2.43.0


From 1c682f0030891dfc4ab18bd7c4fb14108a80c7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:08 +0000
Subject: [PATCH 25/35] fix: traction forces added up to half of the area times
 the load

---
 rainbow/simulators/prox_soft_bodies/solver.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/rainbow/simulators/prox_soft_bodies/solver.py b/rainbow/simulators/prox_soft_bodies/solver.py
index 9822dc8..79f0c86 100644
--- a/rainbow/simulators/prox_soft_bodies/solver.py
+++ b/rainbow/simulators/prox_soft_bodies/solver.py
@@ -339,17 +339,20 @@ class Native:
             #                      I_3x3    I_3x3 2*I_3x3; ]
             # --- The spatial load force
             #
-            #     lf(f) = A(f) * L * [li; lj; lk]
+            #     lf(f) = 2 A(f) * L * [li; lj; lk]
+            #
+            #   because the iso-parametric triangle has area one half,
+            #   hence the determinant of the Jacobian is 2 A(f).
             #
             #   where load = (li,lj,lk) is the applied surface traction.
             load = traction.traction
-            Ft[traction.i] += (A / 24) * (
+            Ft[traction.i] += (A / 12) * (
                 2 * np.dot(Id, load) + np.dot(Id, load) + np.dot(Id, load)
             )
-            Ft[traction.j] += (A / 24) * (
+            Ft[traction.j] += (A / 12) * (
                 np.dot(Id, load) + 2 * np.dot(Id, load) + np.dot(Id, load)
             )
-            Ft[traction.k] += (A / 24) * (
+            Ft[traction.k] += (A / 12) * (
                 np.dot(Id, load) + np.dot(Id, load) + 2 * np.dot(Id, load)
             )
         return Ft
-- 
2.43.0


From bebb5f499cb39d9c5ba832dac68ec771f95efee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:14 +0000
Subject: [PATCH 26/35] fix: Hessian of the inverse kinematics objective had
 transposed blocks

---
 rainbow/simulators/inverse_kinematics/api.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/rainbow/simulators/inverse_kinematics/api.py b/rainbow/simulators/inverse_kinematics/api.py
index 66f7558..2188c4d 100644
--- a/rainbow/simulators/inverse_kinematics/api.py
+++ b/rainbow/simulators/inverse_kinematics/api.py
@@ -339,10 +339,15 @@ def compute_hessian(chains, skeleton, J):
                 vc = np.dot(V3.cross(v, J_c), r)
                 wc = np.dot(V3.cross(w, J_c), r)
 
+                # Differentiating the column of joint angle k wrt a joint angle of the bone h rotates it about the
+                # axis of h, if h is the outer joint angle. Within a single bone the order is alpha, beta, gamma.
+                if h == k:
+                    va, wa, wb = ub, uc, vc
+
                 dH = np.array(
-                    [[ua, va, wa],
-                     [ub, vb, wb],
-                     [uc, vc, wc]]
+                    [[ua, ub, uc],
+                     [va, vb, vc],
+                     [wa, wb, wc]]
                 )
 
                 H[h_offset:h_offset + 3, k_offset:k_offset + 3] -= dH
-- 
2.43.0


From ed451ce9f864fad189028e5a19a0da1c1dc26727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:14 +0000
Subject: [PATCH 27/35] fix: finite differences left the skeleton posed at the
 last perturbation

---
 rainbow/simulators/inverse_kinematics/api.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rainbow/simulators/inverse_kinematics/api.py b/rainbow/simulators/inverse_kinematics/api.py
index 2188c4d..00b5273 100644
--- a/rainbow/simulators/inverse_kinematics/api.py
+++ b/rainbow/simulators/inverse_kinematics/api.py
@@ -468,6 +468,7 @@ def __numerical_differentiation_second_derivative(chains, skeleton, i, j, h):
         update_skeleton(skeleton)
         f_imh = compute_objective(chains, skeleton)
         set_angle(i, theta_i, skeleton)
+        update_skeleton(skeleton)
         return (f_iph - 2 * f_i + f_imh) / (h * h)
     else:
         theta_i = get_angle(i, skeleton)
@@ -490,6 +491,7 @@ def __numerical_differentiation_second_derivative(chains, skeleton, i, j, h):
         f_imh_jmh = compute_objective(chains, skeleton)
         set_angle(i, theta_i, skeleton)
         set_angle(j, theta_j, skeleton)
+        update_skeleton(skeleton)
         return (f_iph_jph - f_iph_jmh - f_imh_jph + f_imh_jmh) / (4 * h * h)
 
 
@@ -513,6 +515,7 @@ def __numerical_differentiation_first_derivative(chains, skeleton, i, h):
     update_skeleton(skeleton)
     f_imh = compute_objective(chains, skeleton)
     set_angle(i, theta_i, skeleton)
+    update_skeleton(skeleton)
     return (f_iph - f_imh) / (2 * h)
 
 
-- 
2.43.0


From ca94f0bef0555bf5a594396c6b8c9e85258fb978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:20 +0000
Subject: [PATCH 28/35] fix: body frame of shapes with equal moments of inertia
 was not a principal frame

---
 rainbow/simulators/prox_rigid_bodies/mass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/mass.py b/rainbow/simulators/prox_rigid_bodies/mass.py
index a35d75c..907ad17 100644
--- a/rainbow/simulators/prox_rigid_bodies/mass.py
+++ b/rainbow/simulators/prox_rigid_bodies/mass.py
@@ -301,7 +301,7 @@ def __rotate_to_model_space_orientation(prop: MassProperties) -> tuple[np.ndarra
         prop.Izz,
     )
 
-    d, R = np.linalg.eig(A)
+    d, R = np.linalg.eigh(A)
 
     permutations = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [2, 0, 1], [1, 2, 0], [2, 1, 0]]
 
-- 
2.43.0


From f91a47acf1cd87097db78ed7ea10bc1dd26f23b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:42 +0000
Subject: [PATCH 29/35] fix: create_rock_slide returns the names of its rocks
 instead of one nested list

---
 .../simulators/prox_rigid_bodies/scenes/create_rock_slide.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/scenes/create_rock_slide.py b/rainbow/simulators/prox_rigid_bodies/scenes/create_rock_slide.py
index dfb44c9..b4dd34e 100644
--- a/rainbow/simulators/prox_rigid_bodies/scenes/create_rock_slide.py
+++ b/rainbow/simulators/prox_rigid_bodies/scenes/create_rock_slide.py
@@ -109,7 +109,7 @@ def create_rock_slide(engine: Engine,
 
     r = V3.make(-10, 16, 5)
     q = Q.Ry(3 * np.pi / 4)
-    body_names.append(
+    body_names.extend(
         create_lattice(
             engine,
             r,
-- 
2.43.0


From a5548d10294700cad08cee1b37fce2bd113e34f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:42 +0000
Subject: [PATCH 30/35] fix: gears of a gear train are hinged about their own
 rotation axis

---
 .../simulators/prox_rigid_bodies/scenes/create_gear_train.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/scenes/create_gear_train.py b/rainbow/simulators/prox_rigid_bodies/scenes/create_gear_train.py
index 58e80a6..bfdc59c 100644
--- a/rainbow/simulators/prox_rigid_bodies/scenes/create_gear_train.py
+++ b/rainbow/simulators/prox_rigid_bodies/scenes/create_gear_train.py
@@ -451,7 +451,7 @@ def create_gear_train(engine: Engine,
             parent_name=parent_name,
             child_name=child_name,
             origin= origin,
-            axis= V3.k(),
+            axis= V3.j(),  # Gears are y-up in the world, so this is their rotation axis.
             mode="world"
         )
 
-- 
2.43.0


From 42948dca9d447a0fb4ec5b6ab32bf1757b11da81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:45 +0000
Subject: [PATCH 31/35] fix: write_xml did not escape special characters in
 material names

---
 rainbow/simulators/prox_rigid_bodies/scenes/write_xml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/scenes/write_xml.py b/rainbow/simulators/prox_rigid_bodies/scenes/write_xml.py
index ca91a25..f4c4abc 100644
--- a/rainbow/simulators/prox_rigid_bodies/scenes/write_xml.py
+++ b/rainbow/simulators/prox_rigid_bodies/scenes/write_xml.py
@@ -76,7 +76,7 @@ def write_xml(engine: TYPES.Engine, xml_filename: str) -> None:
     materials_xml_node = ET.SubElement(root, "materials")
     for key, interaction in engine.surfaces_interactions.storage.items():
         interaction_xml_node = ET.SubElement(materials_xml_node, "interaction")
-        interaction_xml_node.set("materials", key)
+        interaction_xml_node.set("materials", str(key))
         interaction_xml_node.set("friction", np.array2string(interaction.mu))
         interaction_xml_node.set("restitution", str(interaction.epsilon))
 
-- 
2.43.0


From da2cf3f164f2013d61df21520a56e0c8683d069b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:34 +0000
Subject: [PATCH 32/35] fix: links of a URDF robot were shifted by the inertial
 frame of its root link

---
 rainbow/simulators/prox_rigid_bodies/scenes/read_urdf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rainbow/simulators/prox_rigid_bodies/scenes/read_urdf.py b/rainbow/simulators/prox_rigid_bodies/scenes/read_urdf.py
index daec884..5ac9806 100644
--- a/rainbow/simulators/prox_rigid_bodies/scenes/read_urdf.py
+++ b/rainbow/simulators/prox_rigid_bodies/scenes/read_urdf.py
@@ -336,6 +336,8 @@ def read_urdf(engine: TYPES.Engine, package_folder: str, urdf_file_path: str):
         root.X_b2r.q,
         use_model_frame=False
     )
+    # The reference frame of the root is the world frame
+    root.X_b2r = X.make(V3.zero(), Q.identity())
 
     while stack:
         parent = stack.pop()
-- 
2.43.0


From a2e541e25ac3e17cc37de36191e582f5985a3c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:34 +0000
Subject: [PATCH 33/35] fix: scale of URDF meshes was ignored

---
 rainbow/simulators/prox_rigid_bodies/scenes/read_urdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/scenes/read_urdf.py b/rainbow/simulators/prox_rigid_bodies/scenes/read_urdf.py
index 5ac9806..9facc7a 100644
--- a/rainbow/simulators/prox_rigid_bodies/scenes/read_urdf.py
+++ b/rainbow/simulators/prox_rigid_bodies/scenes/read_urdf.py
@@ -118,7 +118,7 @@ class URDF:
             'origin': origin_frame,
             'filename': filename,
             'scale': scale,
-            'vertices': V,
+            'vertices': V * np.array(scale),
             'faces': T
         }
 
-- 
2.43.0


From bc692a07af4b689d544e831857b65246560eaf71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:58 +0000
Subject: [PATCH 34/35] fix: keep only strictly interior tetrahedron sample
 points

generate_interior_sample_points kept the points with exactly three nonzero
barycentric coordinates, which lie on a face, and dropped the interior ones.
---
 rainbow/geometry/tetrahedron.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/geometry/tetrahedron.py b/rainbow/geometry/tetrahedron.py
index 6848b86..cfb8718 100644
--- a/rainbow/geometry/tetrahedron.py
+++ b/rainbow/geometry/tetrahedron.py
@@ -240,4 +240,4 @@ def generate_interior_sample_points(N):
              iso-parametric tetrahedron.
     """
     S = generate_sample_points(N)
-    return S[np.count_nonzero(S, axis=1) == 3]
+    return S[np.count_nonzero(S, axis=1) == 4]
-- 
2.43.0


From f654de7d3666543dff445c368271bc30ae8df898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:45 +0000
Subject: [PATCH 35/35] fix: do not share default arrays between contact points

The default position and normal were arrays made once, at definition, and kept
by every contact point created without them.
---
 rainbow/simulators/prox_rigid_bodies/types.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/types.py b/rainbow/simulators/prox_rigid_bodies/types.py
index 4c24ac1..f04891d 100644
--- a/rainbow/simulators/prox_rigid_bodies/types.py
+++ b/rainbow/simulators/prox_rigid_bodies/types.py
@@ -270,7 +270,7 @@ class ContactPoint:
 
     def __init__(self,
                  bodyA: RigidBody, bodyB: RigidBody,
-                 position: np.ndarray = V3.zero(), normal: np.ndarray = V3.k(), gap: float = 0.0
+                 position: np.ndarray = None, normal: np.ndarray = None, gap: float = 0.0
                  ):
         """
         Create an instance of a single contact point.
@@ -290,6 +290,11 @@ class ContactPoint:
                          vector.
         :param gap:      A measure of the penetration/separation between the two bodies.
         """
+        # Defaults are made per instance, contact points do not share arrays.
+        if position is None:
+            position = V3.zero()
+        if normal is None:
+            normal = V3.k()
         if abs(1.0 - V3.norm(normal)) > 0.1:
             raise RuntimeError(
                 "ContactPoint.init() was called with non-unit size normal"
-- 
2.43.0

