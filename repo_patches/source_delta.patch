From a12e025f05337b5943c0f998f80ff98154eae4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:21 +0000
Subject: [PATCH 01/16] fix: generate fibers from a local random stream

Mat.init seeded and consumed NumPy's process-wide generator: any other
consumer of that generator running in between (another thread, an
interrupt handler) changed the fibers, and every Mat, Net or Mesh call
(they build an empty Mat by default) reset the caller's own random
stream. A local RandomState draws the very same numbers.
---
 src/fibermat/mat.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/fibermat/mat.py b/src/fibermat/mat.py
index a6880f5..5a9e5c4 100644
--- a/src/fibermat/mat.py
+++ b/src/fibermat/mat.py
@@ -196,20 +196,20 @@ class Mat(pd.DataFrame):
 
         """
         # Random generation
-        np.random.seed(seed)  # : random seed for reproducibility
+        rng = np.random.RandomState(seed)  # : random seed for reproducibility
 
         # Fiber dimensions
         l = np.full(n, length)  # : fiber length (mm)
         b = np.full(n, width)  # : fiber width (mm)
         h = np.full(n, thickness)  # : fiber thickness (mm)
         # Fiber position
-        x = np.random.uniform(-0.5, 0.5, n) * size  # : X-coordinate (mm)
-        y = np.random.uniform(-0.5, 0.5, n) * size  # : Y-coordinate (mm)
-        z = np.random.uniform(-0.5, 0.5, n) * size  # : Z-coordinate (mm)
+        x = rng.uniform(-0.5, 0.5, n) * size  # : X-coordinate (mm)
+        y = rng.uniform(-0.5, 0.5, n) * size  # : Y-coordinate (mm)
+        z = rng.uniform(-0.5, 0.5, n) * size  # : Z-coordinate (mm)
         z = np.sort(z)
         # Angles in radians
-        p = np.random.uniform(-0.5, 0.5, n) * theta  # : in plane angle (rad)
-        q = np.random.uniform(-0.5, 0.5, n) * psi  # : out-of-plane angle(rad)
+        p = rng.uniform(-0.5, 0.5, n) * theta  # : in plane angle (rad)
+        q = rng.uniform(-0.5, 0.5, n) * psi  # : out-of-plane angle(rad)
         # Fiber orientation
         u = np.cos(p) * np.cos(q)  # : fiber orientation: X-component
         v = np.sin(p) * np.cos(q)  # : fiber orientation: Y-component
-- 
2.43.0


From e3707acc87abf2f2fa4fb5fec42e698139616310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:21 +0000
Subject: [PATCH 02/16] fix: stop the solver when the numerical error is NaN

A partly NaN answer of the linear solver gives a NaN error, which passed
the 'err > errtol' stopping criterion and was recorded as a valid state.
---
 src/fibermat/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fibermat/solver.py b/src/fibermat/solver.py
index 6e501c9..e01d396 100644
--- a/src/fibermat/solver.py
+++ b/src/fibermat/solver.py
@@ -160,7 +160,7 @@ def solve(mat, mesh, packing=1., itermax=1000,
                 dU = -min(d[(d > tol) & (v > 0)] / v[(d > tol) & (v > 0)])
                 # Stopping criteria
                 stop = False
-                if err > errtol:
+                if not err <= errtol:
                     if verbose:
                         warnings.warn("Stopping criteria: err = {}".format(err),
                                       UserWarning)
-- 
2.43.0


From 61b4945148a57909935d962aae3e37f9afe920f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:47 +0000
Subject: [PATCH 03/16] fix: report a failed stacking instead of storing no
 positions

An OptimizeResult is always true, so the result of a failed linear
program (no positions, or not optimal ones) replaced the positions of
the fibers. The heights are now left as they were and the reason given
by the solver is raised.
---
 src/fibermat/net.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fibermat/net.py b/src/fibermat/net.py
index ee92e20..8ea74e3 100644
--- a/src/fibermat/net.py
+++ b/src/fibermat/net.py
@@ -569,6 +569,8 @@ class Stack(Net):
         linsol = Stack.solve(mat, net, **kwargs)
 
         if linsol:
+            if not linsol.success:
+                raise RuntimeError(linsol.message)
             # Update DataFrames
             mat.z = linsol.x
             net = Net(mat, **net.attrs)
-- 
2.43.0


From 8bf7ca4eec4503dbb0e8e024c381f6d40c0e7335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:47 +0000
Subject: [PATCH 04/16] fix: do not write a thickness column into the caller's
 mesh

constraint() added an undocumented column to the mesh it was given, so
assembling or solving altered its input, even when it failed half-way.
---
 src/fibermat/model.py  | 8 ++++----
 src/fibermat/solver.py | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/fibermat/model.py b/src/fibermat/model.py
index 6e4cae5..f159347 100644
--- a/src/fibermat/model.py
+++ b/src/fibermat/model.py
@@ -263,12 +263,12 @@ def constraint(mat, mesh, **kwargs):
     I = O + 1  # : one
 
     # Get material data
-    mesh["h"] = mat.h.loc[mesh.fiber].values
+    h = mat.h.loc[mesh.fiber].values
     zi = mesh.z.loc[i].values
     zj = mesh.z.loc[j].values
-    hi = mesh.h.loc[i].values
-    hj = mesh.h.loc[j].values
-    Z = (mesh.z.values + 0.5 * mesh.h.values).max()  # : upper boundary position
+    hi = h[i]
+    hj = h[j]
+    Z = (mesh.z.values + 0.5 * h).max()  # : upper boundary position
     i *= 2
     j *= 2
     k *= 3
diff --git a/src/fibermat/solver.py b/src/fibermat/solver.py
index e01d396..a47691f 100644
--- a/src/fibermat/solver.py
+++ b/src/fibermat/solver.py
@@ -126,7 +126,7 @@ def solve(mat, mesh, packing=1., itermax=1000,
     f_ = [f.copy()]
     F_ = [F.copy()]
     H_ = [H.copy()]
-    Z_ = [(mesh.z.values + 0.5 * mesh.h.values).max()]
+    Z_ = [(mesh.z.values + 0.5 * mat.h.loc[mesh.fiber].values).max()]
     rlambda_ = [1.0]
     mask_ = [(np.real(q - P @ x) <= tol)]
     err_ = [0]
-- 
2.43.0


From 90dd6bf8bea043e3752a94bee7a712e2bca73709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:47 +0000
Subject: [PATCH 05/16] fix: raise IndexError for duplicate row labels in Net
 and Mesh

With repeated labels the comparison of arrays of different lengths
raised a broadcasting ValueError, not the documented IndexError (Mat
already guards against it).
---
 src/fibermat/mesh.py | 3 ++-
 src/fibermat/net.py  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fibermat/mesh.py b/src/fibermat/mesh.py
index cda9c09..63adb98 100644
--- a/src/fibermat/mesh.py
+++ b/src/fibermat/mesh.py
@@ -277,7 +277,8 @@ class Mesh(pd.DataFrame):
             raise AttributeError("'periodic' is not in attribute dictionary.")
 
         # Indices
-        if not np.all(np.unique(mesh.index) == np.arange(len(mesh))):
+        if (len(np.unique(mesh.index)) != len(mesh)
+                or not np.all(np.unique(mesh.index) == np.arange(len(mesh)))):
             raise IndexError("Row indices must be unique in [0,..., {}]."
                              .format(len(mesh) - 1))
         if not np.all(mesh.index == np.arange(len(mesh))):
diff --git a/src/fibermat/net.py b/src/fibermat/net.py
index 8ea74e3..64d4bff 100644
--- a/src/fibermat/net.py
+++ b/src/fibermat/net.py
@@ -353,7 +353,8 @@ class Net(pd.DataFrame):
             raise AttributeError("'periodic' is not in attribute dictionary.")
 
         # Indices
-        if not np.all(np.unique(net.index) == np.arange(len(net))):
+        if (len(np.unique(net.index)) != len(net)
+                or not np.all(np.unique(net.index) == np.arange(len(net)))):
             raise IndexError("Row indices must be unique in [0,..., {}]."
                              .format(len(net) - 1))
         if not np.all(net.index == np.arange(len(net))):
-- 
2.43.0


From e28cc965256ed641a0be8f57d0752639132405ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:47 +0000
Subject: [PATCH 06/16] fix: recognise any infinite modulus in the settings
 panel

The modulus was compared to the object np.inf by identity: an infinity
that was read from a file or computed switched the field on.
---
 src/fibermat/widgets.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fibermat/widgets.py b/src/fibermat/widgets.py
index 9a9752a..52f8ca8 100644
--- a/src/fibermat/widgets.py
+++ b/src/fibermat/widgets.py
@@ -44,9 +44,9 @@ class Settings(dict):
         self.size = ipywidgets.FloatText(value=size, step=10.0, description="SIZE")
         self.theta = ipywidgets.FloatSlider(value=theta, min=0.0, max=1.0, step=0.01, readout_format=".1%", description="THETA")
         self.shear = ipywidgets.FloatText(value=(shear if shear != np.inf else 1.0), step=1.0, layout=ipywidgets.Layout(width='100px'))
-        self.shear.switch = ipywidgets.Checkbox(value=not (shear is np.inf), description="SHEAR", layout=ipywidgets.Layout(width='196px'))
+        self.shear.switch = ipywidgets.Checkbox(value=not (shear == np.inf), description="SHEAR", layout=ipywidgets.Layout(width='196px'))
         self.tensile = ipywidgets.FloatText(value=(tensile if tensile  != np.inf else shear * (length / thickness) ** 2), step=1.0, layout=ipywidgets.Layout(width='100px'))
-        self.tensile.switch = ipywidgets.Checkbox(value=not (tensile is np.inf), description="TENSILE", layout=ipywidgets.Layout(width='196px'))
+        self.tensile.switch = ipywidgets.Checkbox(value=not (tensile == np.inf), description="TENSILE", layout=ipywidgets.Layout(width='196px'))
         self.seed = ipywidgets.IntText(value=(seed if seed is not None else 0), layout=ipywidgets.Layout(width='100px'))
         self.seed.switch = ipywidgets.Checkbox(value=not (seed is None), description="SEED", layout=ipywidgets.Layout(width='196px'))
 
@@ -190,9 +190,9 @@ class Settings(dict):
 
         """
         if name in ["shear", "tensile"]:
-            self.__getattribute__(name).switch.value = (False if value is np.inf
+            self.__getattribute__(name).switch.value = (False if value == np.inf
                                                         else True)
-            if value is not np.inf:
+            if value != np.inf:
                 self.__getattribute__(name).value = value
         elif name in ["seed", "threshold", "lmin", "lmax", "interp_size"]:
             self.__getattribute__(name).switch.value = (False if value is None
-- 
2.43.0


From 1737fe76260e686f9f7c94a81c3d5420ceef9438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:47 +0000
Subject: [PATCH 07/16] fix: make the VTK export work with the installed
 pyvista

CylinderStructured only accepts positive increasing radii and the
function pv.translate no longer exists, so every export failed. The
frame is the one pv.translate built.
---
 src/fibermat/render.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/fibermat/render.py b/src/fibermat/render.py
index 01ef7d2..e9716d0 100644
--- a/src/fibermat/render.py
+++ b/src/fibermat/render.py
@@ -71,7 +71,10 @@ def vtk_fiber(length=25., width=1., thickness=1., x=0., y=0., z=0.,
 
     """
     # Create the VTK mesh (cylindrical structured grid)
-    msh = pv.CylinderStructured(radius=np.linspace(0.5, 0, r_resolution + 1),
+    # (radii must be positive and sorted: the axis is approached, not reached)
+    radius = np.linspace(0, 0.5, r_resolution + 1)
+    radius[0] = np.finfo(float).tiny
+    msh = pv.CylinderStructured(radius=radius,
                                 theta_resolution=theta_resolution,
                                 z_resolution=z_resolution)
 
@@ -88,9 +91,15 @@ def vtk_fiber(length=25., width=1., thickness=1., x=0., y=0., z=0.,
 
     # Transform the mesh (scale, rotate, and translate)
     msh.scale([l, b, h], inplace=True)
-    pv.translate(msh,
-                 center=(x, y, z),
-                 direction=(u, v, w))
+    frame = np.eye(4)
+    frame[:3, 0] = np.array([u, v, w]) / np.linalg.norm([u, v, w])
+    normal = np.cross(frame[:3, 0], [0., 1., 0.])
+    if np.allclose(normal, 0):
+        normal = np.cross(frame[:3, 0], [-np.sign(v), 0., 0.])
+    frame[:3, 2] = normal / np.linalg.norm(normal)
+    frame[:3, 1] = np.cross(frame[:3, 2], frame[:3, 0])
+    frame[:3, 3] = x, y, z
+    msh.transform(frame, inplace=True)
 
     # Return VTK mesh
     return msh
-- 
2.43.0


From 6b513f6ec57cbba4e570b1bb200c5e4ee1055e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:47 +0000
Subject: [PATCH 08/16] fix: do not touch the process-wide warning filters in
 solve

warnings.catch_warnings is not thread-safe: two solves that overlap left
the filters of the host program on 'ignore'. The warnings in question
are NumPy's floating-point ones, whose handling is local to a thread.
---
 src/fibermat/solver.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/fibermat/solver.py b/src/fibermat/solver.py
index a47691f..6d743d8 100644
--- a/src/fibermat/solver.py
+++ b/src/fibermat/solver.py
@@ -189,9 +189,8 @@ def solve(mat, mesh, packing=1., itermax=1000,
             pbar.update()
 
     # Interpolate results
-    with warnings.catch_warnings():
+    with np.errstate(all='ignore'):
         # Ignore warning messages due to infinite values in 𝐇
-        warnings.filterwarnings('ignore')
         u = Interpolate(u_, size=interp_size)
         f = Interpolate(f_, size=interp_size)
         F = Interpolate(F_, size=interp_size)
-- 
2.43.0


From aeb652693da1b6b7aacad7a04395d8f170ad812a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:47 +0000
Subject: [PATCH 09/16] fix: return the value of a single sample in Interpolate

A solve that makes no step (default packing, or a stack jammed from the
start) has one state, which linear interpolation turned into NaN.
---
 src/fibermat/interpolation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fibermat/interpolation.py b/src/fibermat/interpolation.py
index 2d1ae5e..8967283 100644
--- a/src/fibermat/interpolation.py
+++ b/src/fibermat/interpolation.py
@@ -57,6 +57,9 @@ class Interpolate(interp1d):
             Additional keyword arguments passed to `interp1d` constructor.
 
         """
+        if len(y) == 1:
+            # A single value cannot be interpolated: it is constant
+            kwargs["kind"] = 'nearest'
         t = np.linspace(0, 1, len(y))
         f = interp1d(t, y, axis=0,
                      bounds_error=False, fill_value=y[-1], **kwargs)
-- 
2.43.0


From 3564ba1e8a35791e7e9d043b93336e8d9895a2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:57 +0000
Subject: [PATCH 10/16] fix: end the packing normally when the system is
 singular

scipy's spsolve raises RuntimeError for a singular matrix (a jammed
stack) where it used to return NaN, which ended the loop: the whole
compaction history was lost instead of returned.
---
 src/fibermat/solver.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/fibermat/solver.py b/src/fibermat/solver.py
index 6d743d8..973095b 100644
--- a/src/fibermat/solver.py
+++ b/src/fibermat/solver.py
@@ -143,12 +143,19 @@ def solve(mat, mesh, packing=1., itermax=1000,
             mask &= np.array(np.sum(np.abs(np.real(P)), axis=0) > 0).ravel()
             # Solve linear problem
             # dx[mask] += np.real(solve(P[np.ix_(mask, mask)], dq[mask]))
-            dx[perm[mask[perm]]] = np.real(
-                solve(
-                    P[np.ix_(perm[mask[perm]], perm[mask[perm]])],
-                    dq[perm[mask[perm]]]
+            try:
+                dx[perm[mask[perm]]] = np.real(
+                    solve(
+                        P[np.ix_(perm[mask[perm]], perm[mask[perm]])],
+                        dq[perm[mask[perm]]]
+                    )
                 )
-            )
+            except RuntimeError as e:
+                # The system is singular (jammed stack)
+                if verbose:
+                    warnings.warn("Stopping criteria: {}".format(e),
+                                  UserWarning)
+                break
             # Calculate error
             err = np.linalg.norm(P[np.ix_(mask, mask)] @ dx[mask] - dq[mask])
             # Calculate evolution
-- 
2.43.0


From 470e7e294a3dca40b302faa76ef2d6a57acd4f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:22 +0000
Subject: [PATCH 11/16] fix: keep the switch of a setting when its new value is
 rejected

---
 src/fibermat/widgets.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/fibermat/widgets.py b/src/fibermat/widgets.py
index 52f8ca8..91d2cc4 100644
--- a/src/fibermat/widgets.py
+++ b/src/fibermat/widgets.py
@@ -190,15 +190,17 @@ class Settings(dict):
 
         """
         if name in ["shear", "tensile"]:
-            self.__getattribute__(name).switch.value = (False if value == np.inf
-                                                        else True)
+            # A rejected value must leave the switch as it is
             if value != np.inf:
                 self.__getattribute__(name).value = value
-        elif name in ["seed", "threshold", "lmin", "lmax", "interp_size"]:
-            self.__getattribute__(name).switch.value = (False if value is None
+            self.__getattribute__(name).switch.value = (False if value == np.inf
                                                         else True)
+        elif name in ["seed", "threshold", "lmin", "lmax", "interp_size"]:
+            # A rejected value must leave the switch as it is
             if value is not None:
                 self.__getattribute__(name).value = value
+            self.__getattribute__(name).switch.value = (False if value is None
+                                                        else True)
         else:
             # Default setter
             self.__getattribute__(name).value = value
-- 
2.43.0


From b8d676b6533689ba18661d6b33bf173511b59763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:55 +0000
Subject: [PATCH 12/16] fix: keep fiber labels and materials in periodic
 exports

---
 src/fibermat/render.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fibermat/render.py b/src/fibermat/render.py
index e9716d0..0fcdb4d 100644
--- a/src/fibermat/render.py
+++ b/src/fibermat/render.py
@@ -270,6 +270,8 @@ def vtk_mesh(mat=None, mesh=None,
         X = Y = mat.attrs["size"]
         Z1, Z2 = np.min(msh.points), np.max(msh.points)
         # Duplicate mesh for periodic conditions
+        # (clipping interpolates the fields: integers would be truncated)
+        msh["fiber"] = msh["fiber"].astype(float)
         msh = pv.MultiBlock([
             msh,
             msh.copy().translate([-X, 0, 0]),
@@ -281,6 +283,10 @@ def vtk_mesh(mat=None, mesh=None,
             msh.copy().translate([X, -Y, 0]),
             msh.copy().translate([X, Y, 0]),
         ]).combine().clip_box([-X, X, -Y, Y, Z1, Z2], invert=False)
+        msh["fiber"] = np.rint(msh["fiber"]).astype(int)
+        # Restore materials (infinite moduli cannot be interpolated)
+        msh["G"] = mat.G.values[msh["fiber"]]
+        msh["E"] = mat.E.values[msh["fiber"]]
 
     # Return VTK mesh
     return msh
-- 
2.43.0


From 5d6f82232dbb73498d6ead1d600688f3aec2cd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:00 +0000
Subject: [PATCH 13/16] fix: build and assemble meshes under pandas
 copy-on-write

With mode.copy_on_write the arrays behind columns and selections are
read-only, so every Mesh, stiffness and constraint call failed.
---
 src/fibermat/mesh.py  | 2 +-
 src/fibermat/model.py | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/fibermat/mesh.py b/src/fibermat/mesh.py
index 63adb98..f616bc4 100644
--- a/src/fibermat/mesh.py
+++ b/src/fibermat/mesh.py
@@ -193,7 +193,7 @@ class Mesh(pd.DataFrame):
             mesh.constraint = indices[mesh.constraint]
             # Correct end nodes
             mask = (mesh.fiber.values == mesh.fiber.loc[mesh.constraint].values)
-            mesh.constraint.values[mask] = mesh.index[mask]
+            mesh.loc[mask, "constraint"] = mesh.index[mask]
 
         # Return the `Mesh` object
         return mesh
diff --git a/src/fibermat/model.py b/src/fibermat/model.py
index f159347..374579a 100644
--- a/src/fibermat/model.py
+++ b/src/fibermat/model.py
@@ -147,8 +147,8 @@ def stiffness(mat, mesh, lmin=None, lmax=None, coupling=1.0, **kwargs):
     k2 += k0 * (fiber.E / fiber.G) * fiber.h ** 2
     k3 = k0 * l ** 2 / 2
     k4 = k2 - k3
-    i *= 2
-    j *= 2
+    i = 2 * i
+    j = 2 * j
 
     # Create stiffness data
     row = np.array([
@@ -269,8 +269,8 @@ def constraint(mat, mesh, **kwargs):
     hi = h[i]
     hj = h[j]
     Z = (mesh.z.values + 0.5 * h).max()  # : upper boundary position
-    i *= 2
-    j *= 2
+    i = 2 * i
+    j = 2 * j
     k *= 3
 
     # Create constraint data
-- 
2.43.0


From 63f812a25f9b902c2d2dbc7db305fa2c6ecc1eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:00 +0000
Subject: [PATCH 14/16] fix: export fibers when the host traps floating-point
 underflow

Points at the smallest positive radius underflow when they are scaled.
---
 src/fibermat/render.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fibermat/render.py b/src/fibermat/render.py
index 0fcdb4d..feb05a8 100644
--- a/src/fibermat/render.py
+++ b/src/fibermat/render.py
@@ -73,7 +73,7 @@ def vtk_fiber(length=25., width=1., thickness=1., x=0., y=0., z=0.,
     # Create the VTK mesh (cylindrical structured grid)
     # (radii must be positive and sorted: the axis is approached, not reached)
     radius = np.linspace(0, 0.5, r_resolution + 1)
-    radius[0] = np.finfo(float).tiny
+    radius[0] = np.finfo(np.float32).tiny
     msh = pv.CylinderStructured(radius=radius,
                                 theta_resolution=theta_resolution,
                                 z_resolution=z_resolution)
-- 
2.43.0


From eb008c3f25e259c0d26675c7e2b33b80a6387d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:00 +0000
Subject: [PATCH 15/16] fix: do not apply functions to the grouping column of a
 mesh

pandas deprecates it: every Mesh call warned, and failed where the host
turns deprecation warnings into errors.
---
 src/fibermat/mesh.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fibermat/mesh.py b/src/fibermat/mesh.py
index f616bc4..a29f2fa 100644
--- a/src/fibermat/mesh.py
+++ b/src/fibermat/mesh.py
@@ -183,7 +183,7 @@ class Mesh(pd.DataFrame):
             mesh.sort_values(by=["fiber", "s"], inplace=True)
             # Intra-fiber elements
             mesh.beam = np.hstack(
-                mesh.groupby("fiber")
+                mesh.groupby("fiber").s
                 .apply(lambda x: np.roll(x.index, -1))
             )
             # Reorder nodes
@@ -309,14 +309,14 @@ class Mesh(pd.DataFrame):
                           == mesh.index):
                 raise ValueError("Nodes are not ordered along fibers.")
             if not np.all(mesh.beam == np.hstack(
-                    mesh.groupby("fiber").apply(lambda x: np.roll(x.index, -1))
+                    mesh.groupby("fiber").s.apply(lambda x: np.roll(x.index, -1))
             )):
                 raise ValueError("Beams are not sorted.")
             if not np.all(mesh.constraint[mesh.constraint].values == mesh.index):
                 raise ValueError("Constraints are not reciprocal.")
-            end1 = mesh.loc[(mesh.groupby("fiber")
+            end1 = mesh.loc[(mesh.groupby("fiber").s
                              .apply(lambda x: x.index[0]))]
-            end2 = mesh.loc[(mesh.groupby("fiber")
+            end2 = mesh.loc[(mesh.groupby("fiber").s
                              .apply(lambda x: x.index[-1]))]
             if (not np.all(end1.constraint == end1.index)
                     or not np.all(end2.constraint == end2.index)):
-- 
2.43.0


From b3ae3b49b35bda40dd6384f21de31df90ea80eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:23 +0000
Subject: [PATCH 16/16] fix: import under warnings turned into errors (escape
 sequences in docstrings)

---
 src/fibermat/net.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fibermat/net.py b/src/fibermat/net.py
index 64d4bff..55c5aa0 100644
--- a/src/fibermat/net.py
+++ b/src/fibermat/net.py
@@ -381,7 +381,7 @@ class Net(pd.DataFrame):
 
 
 class Stack(Net):
-    """
+    r"""
     A class inherited from :class:`Net` to **stack a set of fibers**.
 
     It solves the *linear programming system*:
@@ -709,7 +709,7 @@ class Stack(Net):
 
     @staticmethod
     def constraint(mat=None, net=None, **kwargs):
-        """
+        r"""
         Assemble the linear system:
 
         .. MATH::
@@ -839,5 +839,5 @@ if __name__ == "__main__":
     norm = plt.Normalize(vmin=np.min(load), vmax=np.max(load))
     smap = plt.cm.ScalarMappable(cmap=cmap, norm=norm)
     cbar = plt.colorbar(smap, ax=ax)
-    cbar.set_label("Load / $mg$ ($N\,/\,N$)")
+    cbar.set_label(r"Load / $mg$ ($N\,/\,N$)")
     plt.show()
-- 
2.43.0

