From 35678ed596404eb750f0cba4444262d89bacbed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:33 +0000
Subject: [PATCH 01/42] fix: diffraction_efficiencies(return_dict=True)
 overwrote the order index

The reflection and transmission dictionaries shared the nested dictionaries of
the order index: both held the transmission, and every later lookup of an order
by its indices was broken.
---
 nannos/simulation.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index 6c6f856..fe76826 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -480,14 +480,13 @@ class Simulation:
                 R = bk.sum(R)
                 T = bk.sum(T)
         if return_dict and orders:
-            Rdict = self.harmidx_dict.copy()
-            Tdict = self.harmidx_dict.copy()
-            for i1, i2 in self.harmonics.T:
-                i1 = int(i1)
-                i2 = int(i2)
-                idx = self.harmidx_dict[i1][i2]
-                Rdict[i1][i2] = R[idx]
-                Tdict[i1][i2] = T[idx]
+            Rdict, Tdict = (
+                {
+                    i1: {i2: A[idx] for i2, idx in indices.items()}
+                    for i1, indices in self.harmidx_dict.items()
+                }
+                for A in (R, T)
+            )
             return Rdict, Tdict
         return R, T
 
-- 
2.43.0


From e2843f0153dc2551dd8e10e7917cfc73e271227b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:06 +0000
Subject: [PATCH 02/42] fix: diffraction_efficiencies with complex=True and
 return_dict=True indexed the wrong axis

Complex amplitudes have shape (3, nh): the dictionaries held field components
picked by the order index, or an IndexError was raised.
---
 nannos/simulation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index fe76826..bfc29b6 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -482,7 +482,10 @@ class Simulation:
         if return_dict and orders:
             Rdict, Tdict = (
                 {
-                    i1: {i2: A[idx] for i2, idx in indices.items()}
+                    i1: {
+                        i2: A[:, idx] if complex else A[idx]
+                        for i2, idx in indices.items()
+                    }
                     for i1, indices in self.harmidx_dict.items()
                 }
                 for A in (R, T)
-- 
2.43.0


From 804432f03654a8148f83b7c8b61d7444485ed9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:06 +0000
Subject: [PATCH 03/42] fix: complex diffraction efficiencies assumed the outer
 layers' names

They were looked up as "Superstrate" and "Substrate": any other name raised
an error, and an inner layer with one of these names gave wrong amplitudes.
---
 nannos/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index bfc29b6..fd04c80 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -510,8 +510,8 @@ class Simulation:
         norma_t = (norma_t2.real) ** 0.5
         norma_r = (norma_r2.real) ** 0.5
 
-        t = self.get_field_fourier("Substrate")[0, 0] * norma_t
-        bx0 = self.get_field_fourier("Superstrate")[0, 0] * norma_r
+        t = self.get_field_fourier(-1)[0, 0] * norma_t
+        bx0 = self.get_field_fourier(0)[0, 0] * norma_r
         o0 = bk.array(bk.zeros(self.nh))
         o0 = set_index(o0, [self.index_zeroth_order], 1)
         r = bk.stack([b - o0 * c for b, c in zip(bx0, self.excitation.amplitude)])
-- 
2.43.0


From f8704075e7e7b88075cf113ad3419a21ed610e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:06 +0000
Subject: [PATCH 04/42] fix: TopologyOptimizer returned another point's value
 when it hit stopval

The stop was raised before the point was recorded, so the design returned was
that of the previous evaluation (or there was none: AttributeError).
---
 nannos/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/optimize.py b/nannos/optimize.py
index d02b4dd..ebfcd9f 100644
--- a/nannos/optimize.py
+++ b/nannos/optimize.py
@@ -71,9 +71,9 @@ class StopFun:
 
     def fun(self, x, *args):
         self.f = self.fun_in(x, *args)
+        self.x = npo.array(x)
         if self.stopval is not None and self.f < self.stopval:
             raise StopFunError("Stop value reached.")
-        self.x = x
         return self.f
 
 
-- 
2.43.0


From 3708dc1ab28a13da5c440dbc4867767629c11803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:50 +0000
Subject: [PATCH 05/42] fix: simulations using the same layer objects or layer
 copies disturbed each other

Eigenmodes were stored on the Layer objects, so solving one simulation silently
changed the answers of another one sharing a layer (or raced with it in a
threaded loop). Copies took whatever modes their original had last been given,
or failed if it was uniform, placed later in the stack or not in it.
A simulation now solves private versions of its layers.
---
 nannos/layers.py     | 11 ++++++++
 nannos/simulation.py | 60 +++++++++++++++++++++++++++++++++++++++++---
 2 files changed, 67 insertions(+), 4 deletions(-)

diff --git a/nannos/layers.py b/nannos/layers.py
index 4e3df96..0e2558f 100644
--- a/nannos/layers.py
+++ b/nannos/layers.py
@@ -230,6 +230,17 @@ class Layer:
             cp.name = name
         return cp
 
+    def has_same_modes(self, other):
+        """Check if a layer and another one are copies with identical materials."""
+
+        def root(layer):
+            return root(layer.original) if layer.iscopy else layer
+
+        return root(self) is root(other) and all(
+            getattr(self, attr) is getattr(other, attr)
+            for attr in ["epsilon", "mu", "tangent_field", "tangent_field_type"]
+        )
+
     @property
     def is_epsilon_anisotropic(self):
         return is_anisotropic(self.epsilon)
diff --git a/nannos/simulation.py b/nannos/simulation.py
index fd04c80..1bae3e1 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -7,6 +7,8 @@
 
 __all__ = ["Simulation"]
 
+from copy import copy
+
 from . import backend as bk
 from . import get_types, jit, logger
 from .formulations import fft
@@ -23,6 +25,22 @@ FLOAT, COMPLEX = get_types()
 
 _inv = bk.linalg.inv
 
+# layer attributes set when solving
+_solved_attributes = [
+    "matrix",
+    "Kmu",
+    "Pmu",
+    "eps_hat",
+    "eps_hat_inv",
+    "mu_hat",
+    "mu_hat_inv",
+    "Keps",
+    "Peps",
+    "Qeps",
+    "eigenvalues",
+    "eigenvectors",
+]
+
 
 class Simulation:
     """Main simulation object.
@@ -184,6 +202,9 @@ class Simulation:
         for layer in self.layers:
             _t0lay = timer.tic()
             logger.info(f"Computing eigenpairs for layer {layer}")
+            # Solve a private version of the layer, as the same object might
+            # be used in other simulations.
+            layer = self._get_private_layer(layer, layers_solved)
             layer = self.build_matrix(layer)
             if layer.is_uniform:
                 layer.solve_uniform(self.omega, self.kx, self.ky, self.nh)
@@ -201,11 +222,35 @@ class Simulation:
             logger.info(
                 f"Done computing eigenpairs for layer {layer} in {_t1lay:0.3e}s"
             )
-        self.layers = layers_solved
+        self._layers_solved = layers_solved
+        # Expose the modes on the layer objects as well, for inspection only
+        for layer, layer_solved in zip(self.layers, layers_solved):
+            for attr in _solved_attributes:
+                if hasattr(layer_solved, attr):
+                    setattr(layer, attr, getattr(layer_solved, attr))
         self.is_solved = True
         _t1 = timer.toc(_t0, verbose=False)
         logger.info(f"Done solving in {_t1:0.3e}s")
 
+    def _get_private_layer(self, layer, layers_solved):
+        private = copy(layer)
+        private.reset()
+        private.iscopy = False
+        if not layer.is_uniform:
+            # Eigenmodes are computed once for identical copies
+            for other, other_solved in zip(self.layers, layers_solved):
+                if layer.has_same_modes(other):
+                    private.iscopy = True
+                    private.original = other_solved
+                    break
+        return private
+
+    def _get_solved_layer(self, layer_index):
+        # eigenmodes from this simulation but thickness as currently set
+        layer = copy(self._layers_solved[layer_index])
+        layer.thickness = self.layers[layer_index].thickness
+        return layer
+
     def reset(self, param="all"):
         if param == "S":
             _reseter(self, "S")
@@ -254,7 +299,8 @@ class Simulation:
             S = self._intermediate_S[f"{stack[0]},{stack[-1]}"]
         except Exception:
             for i in stack:
-                layer, layer_next = self.layers[i], self.layers[i + 1]
+                layer = self._get_solved_layer(i)
+                layer_next = self._get_solved_layer(i + 1)
                 z = layer.thickness or 0
                 z_next = layer_next.thickness or 0
                 f, f_next = bk.diag(phasor(layer.eigenvalues, z)), bk.diag(
@@ -286,6 +332,7 @@ class Simulation:
     def get_z_poynting_flux(self, layer, an, bn):
         if not self.is_solved:
             self.solve()
+        layer = self._get_solved_layer(self.get_layer(layer)[1])
         q, phi = layer.eigenvalues, bk.array(layer.eigenvectors)
         A = layer.Qeps @ phi @ bk.diag(1 / (self.omega * q))
         phia, phib = phi @ an, phi @ bn
@@ -303,6 +350,7 @@ class Simulation:
         logger.info(f"Retrieving fields in k-space for layer {layer}")
         if not self.is_solved:
             self.solve()
+        layer = self._get_solved_layer(layer_index)
         ai0, bi0 = self._get_amplitudes(layer_index, translate=False)
         Z = z if hasattr(z, "__len__") else [z]
         fields = bk.zeros((len(Z), 2, 3, self.nh), dtype=COMPLEX)
@@ -520,6 +568,7 @@ class Simulation:
     def get_z_stress_tensor_integral(self, layer_index, z=0):
         layer, layer_index = self.get_layer(layer_index)
         fields_fourier = self.get_field_fourier(layer_index, z=z)
+        layer = self._get_solved_layer(layer_index)
         e = fields_fourier[0, 0]
         h = fields_fourier[0, 1]
         ex = e[0]
@@ -589,7 +638,8 @@ class Simulation:
 
     def build_matrix(self, layer):
         _t0 = timer.tic()
-        layer, layer_index = self.get_layer(layer)
+        if not hasattr(layer, "epsilon"):
+            layer, layer_index = self.get_layer(layer)
         logger.info(f"Building matrix for layer {layer}")
         if layer.iscopy:
             layer.matrix = layer.original.matrix
@@ -745,7 +795,9 @@ class Simulation:
         else:
             ai, bi = self._solve_int(layer_index)
         if translate:
-            ai, bi = _translate_amplitudes(self.layers[layer_index], z, ai, bi)
+            ai, bi = _translate_amplitudes(
+                self._get_solved_layer(layer_index), z, ai, bi
+            )
         _t1 = timer.toc(_t0, verbose=False)
         logger.info(f"Done retrieving amplitudes in {_t1:0.3e}s")
         return ai, bi
-- 
2.43.0


From 8ea4ad87e63ce45fa73771e0e56fc22f28637367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:08 +0000
Subject: [PATCH 06/42] fix: negative layer indices other than -1 failed when
 computing fields

The amplitudes were looked for in an empty range of interfaces (UnboundLocalError).
---
 nannos/layers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/layers.py b/nannos/layers.py
index 0e2558f..f57ec33 100644
--- a/nannos/layers.py
+++ b/nannos/layers.py
@@ -314,7 +314,7 @@ def _get_layer(id, layers, layer_names):
             if l.name == id:
                 return l, i
     elif isinstance(id, int):
-        return layers[id], id
+        return layers[id], id + len(layers) if id < 0 else id
     elif hasattr(id, "name"):
         return _get_layer(id.name, layers, layer_names)
     else:
-- 
2.43.0


From 8d7bb147993b8d8140949fec51909c1b34db2616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:34 +0000
Subject: [PATCH 07/42] fix: single precision constants with the torch backend

torch.eye and torch.linspace default to float32: incident amplitudes were only
accurate to 1e-8, so energy was not conserved to working precision as with the
other backends, and masks could differ by pixels on the edge of a shape.
---
 nannos/excitation.py | 2 +-
 nannos/geometry.py   | 4 ++--
 nannos/lattice.py    | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/nannos/excitation.py b/nannos/excitation.py
index 485dc57..7079ed1 100644
--- a/nannos/excitation.py
+++ b/nannos/excitation.py
@@ -64,7 +64,7 @@ class PlaneWave:
         kt = self.wavevector
         omega = k0
         K = bk.array([[kt[1] ** 2, -kt[0] * kt[1]], [-kt[0] * kt[1], kt[0] ** 2]])
-        Q = omega**2 * bk.array(bk.eye(2)) - K
+        Q = omega**2 * bk.array(bk.eye(2, dtype=FLOAT)) - K
         q = (omega**2 - kt[0] ** 2 - kt[1] ** 2) ** 0.5
         C = bk.linalg.inv(Q) * (omega * q)
         et = bk.array([-self.amplitude[1], self.amplitude[0]])
diff --git a/nannos/geometry.py b/nannos/geometry.py
index 7b67b04..3da4eca 100644
--- a/nannos/geometry.py
+++ b/nannos/geometry.py
@@ -106,8 +106,8 @@ def shape_mask(shp, x, y, m=None):
 
 
 def geometry_mask(geom, lattice, Nx, Ny):
-    x0 = bk.linspace(0, 1.0, Nx)
-    y0 = bk.linspace(0, 1.0, Ny)
+    x0 = bk.linspace(0, 1.0, Nx, dtype=bk.float64)
+    y0 = bk.linspace(0, 1.0, Ny, dtype=bk.float64)
     x_, y_ = bk.meshgrid(x0, y0, indexing="ij")
     grid = bk.stack([x_, y_])
     x, y = grid[0][:, 0], grid[1][0, :]
diff --git a/nannos/lattice.py b/nannos/lattice.py
index 25f14c6..4ced136 100644
--- a/nannos/lattice.py
+++ b/nannos/lattice.py
@@ -155,8 +155,8 @@ class Lattice:
 
         """
         Nx, Ny = self.discretization
-        x0 = bk.array(bk.linspace(0, 1.0, Nx))
-        y0 = bk.array(bk.linspace(0, 1.0, Ny))
+        x0 = bk.array(bk.linspace(0, 1.0, Nx, dtype=FLOAT))
+        y0 = bk.array(bk.linspace(0, 1.0, Ny, dtype=FLOAT))
         x_, y_ = bk.meshgrid(x0, y0, indexing="ij")
         return bk.stack([x_, y_])
 
-- 
2.43.0


From b4a6fd4bf2661c4937617868f69ac62bf7702822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:30 +0000
Subject: [PATCH 08/42] fix: use_gpu(True) with the jax backend and no GPU
 broke every later computation

There was no check as for torch, and the device stayed "cuda" when switching
to the torch backend afterwards.
---
 nannos/__init__.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/nannos/__init__.py b/nannos/__init__.py
index 8f46675..52665e6 100644
--- a/nannos/__init__.py
+++ b/nannos/__init__.py
@@ -72,6 +72,17 @@ def _has_cuda():
         return False
 
 
+def _has_jax_gpu():
+    import jax
+
+    # hidden by the jax backend when on CPU
+    os.environ["CUDA_VISIBLE_DEVICES"] = "0"
+    try:
+        return len(jax.devices("gpu")) > 0
+    except RuntimeError:
+        return False
+
+
 HAS_TORCH = has_torch()
 HAS_CUDA = _has_cuda()
 
@@ -108,6 +119,10 @@ def use_gpu(boolean):
             logger.warning("jax not found. Cannot use GPU.")
             _delvar("_GPU_DEVICE")
             _CPU_DEVICE = True
+        elif BACKEND == "jax" and not _has_jax_gpu():
+            logger.warning("no GPU found by jax. Cannot use GPU.")
+            _delvar("_GPU_DEVICE")
+            _CPU_DEVICE = True
         else:
             DEVICE = "cuda"
             logger.debug("Using GPU.")
-- 
2.43.0


From c0fe975b1e8aa96a7bab80e46b8d27f5527fabf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:17 +0000
Subject: [PATCH 09/42] fix: a backend switch that failed part-way could not be
 completed by retrying

set_backend returned at once as the backend was already recorded as the current
one, leaving some modules on the previous backend.
---
 nannos/__init__.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/nannos/__init__.py b/nannos/__init__.py
index 52665e6..808f831 100644
--- a/nannos/__init__.py
+++ b/nannos/__init__.py
@@ -173,7 +173,7 @@ def set_backend(backend):
 
     _FORCE_BACKEND = 1
 
-    if backend == get_backend():
+    if backend == get_backend() == BACKEND and "_RELOADING" not in globals():
         return
     #
     # _backend_env_var = os.environ.get("NANNOS_BACKEND")
@@ -218,12 +218,18 @@ def _reload_package():
 
     import nannos
 
+    # stays set if reloading fails or is interrupted
+    global _RELOADING
+    _RELOADING = True
+
     importlib.reload(nannos)
 
     its = [s for s in sys.modules.items() if s[0].startswith("nannos")]
     for k, v in its:
         importlib.reload(v)
 
+    _delvar("_RELOADING")
+
 
 def get_backend():
     if "_SCIPY" in globals():
-- 
2.43.0


From 277cfc79bbba119d41b77b0de338662253c8819b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:22 +0000
Subject: [PATCH 10/42] fix: switching backends reset the log level

---
 nannos/log.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nannos/log.py b/nannos/log.py
index 314f933..5b64404 100644
--- a/nannos/log.py
+++ b/nannos/log.py
@@ -34,7 +34,9 @@ def set_log_level(level):
     """
 
     global logger
+    global _log_level
     LOG_LEVEL = LEVELS[level]
+    _log_level = level
     LOGFORMAT = (
         "  %(log_color)s%(levelname)-8s%(reset)s | %(log_color)s%(message)s%(reset)s"
     )
@@ -51,4 +53,5 @@ def set_log_level(level):
     logger.addHandler(stream)
 
 
-set_log_level("WARNING")
+# keep the current level when reloaded (this happens when switching backends)
+set_log_level(globals().get("_log_level", "WARNING"))
-- 
2.43.0


From 76bb5ba675e19638dcd50bf6d9f66b910691bc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:13 +0000
Subject: [PATCH 11/42] fix: TopologyOptimizer with scipy failed for objectives
 returning torch tensors

scipy needs a plain number; the nlopt branch already converted it.
---
 nannos/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/optimize.py b/nannos/optimize.py
index ebfcd9f..418cb4c 100644
--- a/nannos/optimize.py
+++ b/nannos/optimize.py
@@ -150,7 +150,7 @@ class TopologyOptimizer:
                     if self.callback is not None:
                         self.callback(x, y, *args)
                     self.current_iteration += 1
-                    return y
+                    return float(y)
 
                 bounds = [(0, 1) for _ in range(self.nvar)]
                 options = {"maxiter": self.maxiter}
-- 
2.43.0


From b5a1792e5c7f4c9da69a8553aabb23b44d27f818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:11 +0000
Subject: [PATCH 12/42] fix: TopologyOptimizer paired a design with another
 design's value after a failed line search

---
 nannos/optimize.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/nannos/optimize.py b/nannos/optimize.py
index 418cb4c..66523d1 100644
--- a/nannos/optimize.py
+++ b/nannos/optimize.py
@@ -68,14 +68,23 @@ class StopFun:
     def __init__(self, fun, stopval=None):
         self.fun_in = fun
         self.stopval = stopval
+        self.history = []
 
     def fun(self, x, *args):
         self.f = self.fun_in(x, *args)
         self.x = npo.array(x)
+        self.history.append((self.x, self.f))
         if self.stopval is not None and self.f < self.stopval:
             raise StopFunError("Stop value reached.")
         return self.f
 
+    def value_at(self, x, default):
+        """Value of the last evaluation at x."""
+        for xi, fi in reversed(self.history):
+            if npo.array_equal(xi, x):
+                return fi
+        return default
+
 
 class TopologyOptimizer:
     def __init__(
@@ -169,7 +178,8 @@ class TopologyOptimizer:
                         options=options,
                     )
                     xopt = self.opt.x
-                    fopt = self.opt.fun
+                    # after a failed line search scipy gives the value of another point
+                    fopt = stop.value_at(xopt, self.opt.fun)
                 except StopFunError as e:
                     print(e)
                     xopt = stop.x
-- 
2.43.0


From 64ddfac75de8f0f8b54d3c244a089649a97b9ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:56 +0000
Subject: [PATCH 13/42] fix: anisotropic tensors acted as if rotated by 90
 degrees in the plane

---
 nannos/simulation.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index 1bae3e1..64fe927 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -698,7 +698,9 @@ class Simulation:
                 mu_hat_inv = _inv(mu_hat)
 
             if layer.is_epsilon_anisotropic:
-                eps_para_hat = self._get_toeplitz_matrix(epsilon, transverse=True)
+                eps_para_hat = self._get_toeplitz_matrix(
+                    _tangential_tensor(epsilon), transverse=True
+                )
             else:
                 eps_para_hat = [[eps_hat, self.ZeroG], [self.ZeroG, eps_hat]]
 
@@ -825,7 +827,7 @@ class Simulation:
         epsilon = layer.epsilon
         if layer.is_epsilon_anisotropic:
             N = epsilon.shape[2]
-            eb = block(epsilon[:2, :2])
+            eb = block(_tangential_tensor(epsilon))
             nu = inv2by2block(eb, N)
             # nu = _inv(epsilon[2,2])
             nu1 = bk.array(block2list(nu, N))
@@ -906,6 +908,16 @@ class Simulation:
         return plot_structure(self, plotter, nper, dz, null_thickness, **kwargs)
 
 
+def _tangential_tensor(u):
+    # in-plane components of a tensor in the basis (-y,x) used for the fields
+    return bk.stack(
+        [
+            bk.stack([u[1, 1], -u[1, 0]]),
+            bk.stack([-u[0, 1], u[0, 0]]),
+        ]
+    )
+
+
 def phasor(q, z):
     return bk.exp(1j * q * z)
 
-- 
2.43.0


From 57ea5059bd90f7c4b3a2d84784c6d54cb030f01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:58 +0000
Subject: [PATCH 14/42] fix: stress tensor ignored in-plane anisotropy

---
 nannos/simulation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index 64fe927..f0c5eb3 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -32,6 +32,7 @@ _solved_attributes = [
     "Pmu",
     "eps_hat",
     "eps_hat_inv",
+    "eps_para_hat",
     "mu_hat",
     "mu_hat_inv",
     "Keps",
@@ -584,10 +585,7 @@ class Simulation:
         else:
             exy = bk.hstack((-ey, ex))
 
-            # FIXME: anisotropy here?
-            # dxy = layer.eps_hat @ exy
-            _eps_hat = block([[layer.eps_hat, self.ZeroG], [self.ZeroG, layer.eps_hat]])
-            dxy = _eps_hat @ exy
+            dxy = layer.eps_para_hat @ exy
             dx = dxy[self.nh :]
             dy = -dxy[: self.nh]
 
@@ -646,6 +644,7 @@ class Simulation:
             layer.Kmu = layer.original.Kmu
             layer.eps_hat = layer.original.eps_hat
             layer.eps_hat_inv = layer.original.eps_hat_inv
+            layer.eps_para_hat = layer.original.eps_para_hat
             layer.mu_hat = layer.original.mu_hat
             layer.mu_hat_inv = layer.original.mu_hat_inv
             layer.Keps = layer.original.Keps
@@ -703,6 +702,7 @@ class Simulation:
                 )
             else:
                 eps_para_hat = [[eps_hat, self.ZeroG], [self.ZeroG, eps_hat]]
+            layer.eps_para_hat = block(eps_para_hat)
 
             Keps = _build_Kmatrix(eps_hat_inv, Ky, -Kx)
             Kmu = _build_Kmatrix(mu_hat_inv, Kx, Ky)
-- 
2.43.0


From 7435c5b9f774b76609808b3d7c3fcd1501198bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:06 +0000
Subject: [PATCH 15/42] fix: rounding noise decided the direction of
 propagating modes, making interfaces between similar layers singular

---
 nannos/layers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nannos/layers.py b/nannos/layers.py
index f57ec33..8c5fa3c 100644
--- a/nannos/layers.py
+++ b/nannos/layers.py
@@ -208,7 +208,9 @@ class Layer:
             else:
                 w, v = eig_func(matrix)
             q = w**0.5
-            q = bk.where(bk.imag(q) < 0.0, -q, q)
+            # the sign of a negligible imaginary part is rounding noise, it must
+            # not change the direction of propagation
+            q = bk.where(bk.imag(q) < -1e-6 * bk.abs(q), -q, q)
             self.eigenvalues, self.eigenvectors = q, v
         return self.eigenvalues, self.eigenvectors
 
-- 
2.43.0


From f9f1243d3c7eea805fc605388bae45abcc657b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:32 +0000
Subject: [PATCH 16/42] fix: lattice grids failed in single precision with the
 torch backend

---
 nannos/lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/lattice.py b/nannos/lattice.py
index 4ced136..3659492 100644
--- a/nannos/lattice.py
+++ b/nannos/lattice.py
@@ -187,7 +187,7 @@ class Lattice:
 
         """
         if get_backend() == "torch":
-            return bk.tensordot(self.matrix, grid.double(), dims=([1], [0]))
+            return bk.tensordot(self.matrix, grid.to(FLOAT), dims=([1], [0]))
         else:
             return bk.tensordot(self.matrix, grid, axes=(1, 0))
 
-- 
2.43.0


From da7013793ff5859efc9d72893d1b2282a94aa6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:57 +0000
Subject: [PATCH 17/42] fix: default tangent field failed in single precision
 with the torch backend

---
 nannos/formulations/tangent.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/nannos/formulations/tangent.py b/nannos/formulations/tangent.py
index 6c9fd60..2b2a0a6 100644
--- a/nannos/formulations/tangent.py
+++ b/nannos/formulations/tangent.py
@@ -10,9 +10,12 @@ from scipy.interpolate import RegularGridInterpolator
 from scipy.optimize import minimize
 
 from .. import backend as bk
+from .. import get_types
 from ..utils import apply_filter, norm
 from .fft import fourier_transform, inverse_fourier_transform
 
+FLOAT, COMPLEX = get_types()
+
 
 def _normalize(x, n, invalid=0, threshold=0.0):
     with npo.errstate(invalid="ignore"):
@@ -214,14 +217,16 @@ def _get_tangent_field_min(
     ax = interpx(points).T
     ay = interpy(points).T
 
-    t = bk.real(bk.stack([bk.array(ay), -bk.array(ax)]))
+    t = bk.real(
+        bk.stack([bk.array(ay, dtype=COMPLEX), -bk.array(ax, dtype=COMPLEX)])
+    )
 
     if normalize:
         try:
             t1 = t.detach().cpu().numpy()
         except Exception:
             t1 = t
-        norm_t = bk.array(norm(t1))
+        norm_t = bk.array(norm(t1), dtype=FLOAT)
         t = _normalize_vec(t, norm_t)
     else:
         # t *= norm_dgrid_f
-- 
2.43.0


From 19bdd4c07ef2d6b6910e3320c02a3c379c831f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:57 +0000
Subject: [PATCH 18/42] fix: anisotropic layers with the tangent formulations
 failed with the torch backend

---
 nannos/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index f0c5eb3..95db8ab 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -830,7 +830,7 @@ class Simulation:
             eb = block(_tangential_tensor(epsilon))
             nu = inv2by2block(eb, N)
             # nu = _inv(epsilon[2,2])
-            nu1 = bk.array(block2list(nu, N))
+            nu1 = bk.stack([bk.stack(row) for row in block2list(nu, N)])
             nuhat = self._get_toeplitz_matrix(nu1, transverse=True)
             nuhat_inv = block2list(_inv(block(nuhat)), self.nh)
 
-- 
2.43.0


From e97407abe15288c0e4575648ec74ea23c9da5318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:44 +0000
Subject: [PATCH 19/42] fix: an optional backend package failing to import made
 every backend unusable

---
 nannos/__init__.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/nannos/__init__.py b/nannos/__init__.py
index 808f831..d33980d 100644
--- a/nannos/__init__.py
+++ b/nannos/__init__.py
@@ -44,12 +44,17 @@ def print_info():
     print(f"Licence: {_data['License']}")
 
 
+# an installed package can also fail to import (missing shared libraries,
+# incompatible versions): it is not available either
+_IMPORT_ERRORS = (ImportError, AttributeError, OSError, RuntimeError)
+
+
 def has_torch():
     try:
         import torch
 
         return True
-    except ModuleNotFoundError:
+    except _IMPORT_ERRORS:
         return False
 
 
@@ -59,7 +64,7 @@ def has_jax():
         import jax
 
         return True
-    except ModuleNotFoundError:
+    except _IMPORT_ERRORS:
         return False
 
 
@@ -68,7 +73,7 @@ def _has_cuda():
         import torch
 
         return torch.cuda.is_available()
-    except ModuleNotFoundError:
+    except _IMPORT_ERRORS:
         return False
 
 
-- 
2.43.0


From 995af29d608aceb9e8270894e7a861bc5e2848bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:36 +0000
Subject: [PATCH 20/42] fix: retrying an interrupted backend switch reloaded
 modules in the wrong order

---
 nannos/__init__.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/nannos/__init__.py b/nannos/__init__.py
index d33980d..b0618e3 100644
--- a/nannos/__init__.py
+++ b/nannos/__init__.py
@@ -230,8 +230,16 @@ def _reload_package():
     importlib.reload(nannos)
 
     its = [s for s in sys.modules.items() if s[0].startswith("nannos")]
-    for k, v in its:
-        importlib.reload(v)
+    try:
+        for k, v in its:
+            importlib.reload(v)
+    except BaseException:
+        # reloading moves modules to the end of sys.modules: restore the order
+        # in which they depend on each other, the next reload follows it
+        for k, v in its:
+            sys.modules.pop(k, None)
+            sys.modules[k] = v
+        raise
 
     _delvar("_RELOADING")
 
-- 
2.43.0


From e7b60e42914f82fde8e3fb42c8647cf426302499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:24 +0000
Subject: [PATCH 21/42] fix: an interrupted import could not be completed by
 importing again

---
 nannos/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nannos/__init__.py b/nannos/__init__.py
index b0618e3..f3498ef 100644
--- a/nannos/__init__.py
+++ b/nannos/__init__.py
@@ -19,8 +19,14 @@ pyvista.global_theme.axes.show = True
 
 
 import os
+import sys
 import warnings
 
+if "BACKEND" not in globals():
+    # not a reload: these would be left over from an interrupted import
+    for _name in [m for m in sys.modules if m.startswith("nannos.")]:
+        del sys.modules[_name]
+
 from packaging.version import parse as parse_version
 
 from .__about__ import __author__, __description__, __version__
-- 
2.43.0


From cd4d9e3f1bb10910ff22c125d51d9a5af7bc5265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:59 +0000
Subject: [PATCH 22/42] fix: falling back from a missing backend package left
 modules on the previous backend

---
 nannos/__init__.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/nannos/__init__.py b/nannos/__init__.py
index f3498ef..15047d1 100644
--- a/nannos/__init__.py
+++ b/nannos/__init__.py
@@ -309,7 +309,11 @@ elif "_JAX" in globals():
 
     else:
         logger.warning("jax not found. Falling back to default numpy backend.")
-        set_backend("numpy")
+        _delvar("_JAX")
+        import numpy
+
+        grad = _grad
+        backend = numpy
 elif "_TORCH" in globals():
     if HAS_TORCH:
         import numpy
@@ -340,7 +344,11 @@ elif "_TORCH" in globals():
 
     else:
         logger.warning("pytorch not found. Falling back to default numpy backend.")
-        set_backend("numpy")
+        _delvar("_TORCH")
+        import numpy
+
+        grad = _grad
+        backend = numpy
 else:
     import numpy
 
-- 
2.43.0


From ae78be49818f728e7ceaa4ba55c473cabf7f0c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:54 +0000
Subject: [PATCH 23/42] fix: a precision switch interrupted before reloading
 could not be completed by selecting the backend again

---
 nannos/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nannos/__init__.py b/nannos/__init__.py
index 15047d1..fb588e8 100644
--- a/nannos/__init__.py
+++ b/nannos/__init__.py
@@ -184,7 +184,11 @@ def set_backend(backend):
 
     _FORCE_BACKEND = 1
 
-    if backend == get_backend() == BACKEND and "_RELOADING" not in globals():
+    if (
+        backend == get_backend() == BACKEND
+        and (FLOAT, COMPLEX) == get_types()
+        and "_RELOADING" not in globals()
+    ):
         return
     #
     # _backend_env_var = os.environ.get("NANNOS_BACKEND")
-- 
2.43.0


From d63b68c130155f47e1372a9453a3953daccd6fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:05 +0000
Subject: [PATCH 24/42] fix: user supplied harmonics failed with the torch
 backend

---
 nannos/lattice.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nannos/lattice.py b/nannos/lattice.py
index 3659492..d01c51c 100644
--- a/nannos/lattice.py
+++ b/nannos/lattice.py
@@ -123,8 +123,8 @@ class Lattice:
 
     def _get_harmonics(self, nh):
         if self.harmonics_array is not None:
-            nh = bk.shape(self.harmonics_array)[1]
-            return self.harmonics_array, nh
+            harmonics = bk.array(self.harmonics_array)
+            return harmonics, harmonics.shape[1]
         if int(nh) != nh:
             raise ValueError("nh must be integer.")
         if self.truncation == "circular":
-- 
2.43.0


From fdf421049e721f517d21fb85f65e3bfd5bad3f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:05 +0000
Subject: [PATCH 25/42] fix: area of a lattice failed with the torch backend

---
 nannos/lattice.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/nannos/lattice.py b/nannos/lattice.py
index d01c51c..cddb80a 100644
--- a/nannos/lattice.py
+++ b/nannos/lattice.py
@@ -72,8 +72,7 @@ class Lattice:
     def area(self):
         if self.is_1D:
             return self.basis_vectors[0][0]
-        v = self.basis_vectors
-        return bk.linalg.norm(bk.cross(v[0], v[1]))
+        return bk.abs(bk.linalg.det(self.matrix))
 
     @property
     def matrix(self):
-- 
2.43.0


From 7a822574d7f99c22626472c2388e9fae2d1511ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:05 +0000
Subject: [PATCH 26/42] fix: adaptive sampling failed with the jax backend

---
 nannos/sample.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nannos/sample.py b/nannos/sample.py
index 212b904..75f6188 100644
--- a/nannos/sample.py
+++ b/nannos/sample.py
@@ -8,7 +8,8 @@
 
 __all__ = ["adaptive_sampler"]
 
-from . import numpy as np
+import numpy as np
+
 from .parallel import parloop
 
 
-- 
2.43.0


From 30957e0ba1f6294dc4260a8ebb843db5e386320f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:05 +0000
Subject: [PATCH 27/42] fix: complex orders were in single precision with the
 torch backend

---
 nannos/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index 95db8ab..c4185c7 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -561,7 +561,7 @@ class Simulation:
 
         t = self.get_field_fourier(-1)[0, 0] * norma_t
         bx0 = self.get_field_fourier(0)[0, 0] * norma_r
-        o0 = bk.array(bk.zeros(self.nh))
+        o0 = bk.array(bk.zeros(self.nh, dtype=FLOAT))
         o0 = set_index(o0, [self.index_zeroth_order], 1)
         r = bk.stack([b - o0 * c for b, c in zip(bx0, self.excitation.amplitude)])
         return r, t
-- 
2.43.0


From 21f3cc3dcf7e3fee36a1185def2f03ed8a62231f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:05 +0000
Subject: [PATCH 28/42] fix: projections and multi-material interpolation lost
 precision or failed with the torch backend

---
 nannos/optimize.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/nannos/optimize.py b/nannos/optimize.py
index 66523d1..6aefed6 100644
--- a/nannos/optimize.py
+++ b/nannos/optimize.py
@@ -25,33 +25,35 @@ def simp(x, eps_min, eps_max, p=1):
 def project(x, beta=1, thres=0.5):
     x = bk.array(x)
 
-    def tanh(z):
-        return bk.tanh(bk.array(z))
+    def tanh(z, **kwargs):
+        return bk.tanh(bk.array(z, **kwargs))
 
-    return ((tanh(thres * beta)) + tanh(beta * (x - thres))) / (
-        tanh(thres * beta) + (tanh((1 - thres) * beta))
-    )
+    tmin = tanh(thres * beta, dtype=FLOAT)
+    tmax = tanh((1 - thres) * beta, dtype=FLOAT)
+    return (tmin + tanh(beta * (x - thres))) / (tmin + tmax)
 
 
 def multi_project(x, beta=1, Nthres=2):
-    thresholds = bk.linspace(0, 1, Nthres + 1)[1:-1]
+    thresholds = bk.linspace(0, 1, Nthres + 1, dtype=FLOAT)[1:-1]
     out = sum(project(x, beta, thres) for thres in thresholds)
     return out / len(thresholds)
 
 
 def multi_simp(x, epsilons, p=1):
-    epsilons = bk.array(epsilons) + 0j
+    epsilons = bk.array(epsilons, dtype=COMPLEX) + 0j
     nthres = len(epsilons)
     npts = nthres
     if nthres == 2:
         return simp(x, epsilons[0], epsilons[1], p)
-    pts = bk.linspace(0, 1, npts)
+    pts = bk.linspace(0, 1, npts, dtype=FLOAT)
 
     def pol(coefs, x):
         return sum(c * x ** (n * p) for n, c in enumerate(coefs))
 
     def mat(pts):
-        return bk.array([[_x ** (n * p) + 0j for n in range(npts)] for _x in pts])
+        return bk.array(
+            [[_x ** (n * p) + 0j for n in range(npts)] for _x in pts], dtype=COMPLEX
+        )
 
     M = mat(pts)
     coefs = bk.linalg.inv(M) @ epsilons
-- 
2.43.0


From 339aea4c33d2ff443def77821de647e66a1c8544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:05 +0000
Subject: [PATCH 29/42] fix: filters were in single precision with the torch
 backend

---
 nannos/utils/helpers.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/nannos/utils/helpers.py b/nannos/utils/helpers.py
index b89ff55..afc1ad1 100644
--- a/nannos/utils/helpers.py
+++ b/nannos/utils/helpers.py
@@ -141,12 +141,13 @@ def _apply_filter(x, rfilt, vectors=None):
     Nx, Ny = x.shape
 
     if vectors is None:
-        tx = bk.array(bk.linspace(-Nx / 2, Nx / 2, Nx))
-        ty = bk.array(bk.linspace(-Ny / 2, Ny / 2, Ny))
+        tx = bk.array(bk.linspace(-Nx / 2, Nx / 2, Nx, dtype=FLOAT))
+        ty = bk.array(bk.linspace(-Ny / 2, Ny / 2, Ny, dtype=FLOAT))
 
     else:
-        tx = bk.array(bk.linspace(-0.5 * vectors[0][0], 0.5 * vectors[0][0], Nx))
-        ty = bk.array(bk.linspace(-0.5 * vectors[1][1], 0.5 * vectors[1][1], Ny))
+        lx, ly = 0.5 * vectors[0][0], 0.5 * vectors[1][1]
+        tx = bk.array(bk.linspace(-lx, lx, Nx, dtype=FLOAT))
+        ty = bk.array(bk.linspace(-ly, ly, Ny, dtype=FLOAT))
     bumpx = bk.exp(-(tx**2) / rfilt[0] ** 2)
     bumpx /= bk.trapz(bumpx)  # normalize the integral to 1
     bumpy = bk.exp(-(ty**2) / rfilt[1] ** 2)
-- 
2.43.0


From ee848000462656f2057b26e6f523323777f5e0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:05 +0000
Subject: [PATCH 30/42] fix: FFT tangent fields were in single precision with
 the torch backend

---
 nannos/formulations/tangent.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nannos/formulations/tangent.py b/nannos/formulations/tangent.py
index 2b2a0a6..0fd3a3f 100644
--- a/nannos/formulations/tangent.py
+++ b/nannos/formulations/tangent.py
@@ -47,8 +47,8 @@ def _get_tangent_field_fft(grid, normalize=False, rfilt=4, expo=0.5):
     norma = norm(v)
     N = [bk.array(v[i]) * bk.abs(vf[i]) for i in range(2)]
     N = [_normalize(N[i], norma) for i in range(2)]
-    fx = bk.fft.fftfreq(3 * Nx)
-    fy = bk.fft.fftfreq(3 * Ny)
+    fx = bk.array(npo.fft.fftfreq(3 * Nx), dtype=FLOAT)
+    fy = bk.array(npo.fft.fftfreq(3 * Ny), dtype=FLOAT)
     Fx, Fy = bk.meshgrid(fx, fy, indexing="ij")
     ghat = _ft_filt(Fx**2 + Fy**2, expo=expo) * Nx * Ny
     # ghat = apply_filter(Fx**2 + Fy**2, rfilt)
-- 
2.43.0


From 0147d8f0a4cc5237caa690019bf8d6260c3c64f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:05 +0000
Subject: [PATCH 31/42] fix: version table failed when an optional package is
 not installed

---
 nannos/utils/jupyter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nannos/utils/jupyter.py b/nannos/utils/jupyter.py
index dcb04bb..1c84da5 100644
--- a/nannos/utils/jupyter.py
+++ b/nannos/utils/jupyter.py
@@ -60,7 +60,11 @@ class VersionTable(Magics):
         packages_names = ["nannos", "numpy", "scipy", "autograd", "jax", "torch"]
 
         for pkg in packages_names:
-            ver = pkg_resources.get_distribution(pkg).version
+            try:
+                ver = pkg_resources.get_distribution(pkg).version
+            except pkg_resources.DistributionNotFound:
+                # jax and torch are optional
+                ver = "not installed"
 
             packages.append((f"<code>{pkg}</code>", ver))
 
-- 
2.43.0


From 5b0b6bda36589f3ce30ba0a1d8189524b069224f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:37 +0000
Subject: [PATCH 32/42] fix: the type given to Layer.get_tangent_field was
 ignored

---
 nannos/layers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/layers.py b/nannos/layers.py
index 8c5fa3c..82fc97b 100644
--- a/nannos/layers.py
+++ b/nannos/layers.py
@@ -283,7 +283,7 @@ class Layer:
             epsilon_zz,
             harmonics,
             normalize=normalize,
-            type=self.tangent_field_type,
+            type=type,
         )
 
     def get_jones_field(self, t):
-- 
2.43.0


From 4777f9437d338716aaada097aaa99ffb0dfce142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:37 +0000
Subject: [PATCH 33/42] fix: tangent formulations projected on the wrong field
 components

---
 nannos/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index c4185c7..d131747 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -887,7 +887,7 @@ class Simulation:
             Pxy_hat = self._get_toeplitz_matrix(Pxy)
             Pyx_hat = self._get_toeplitz_matrix(Pyx)
 
-            Pi = block([[Pyy_hat, Pyx_hat], [Pxy_hat, Pxx_hat]])
+            Pi = block([[Pxx_hat, Pyx_hat], [Pxy_hat, Pyy_hat]])
 
             # Delta = epsilon - 1 / epsilon
             # Delta_hat = self._get_toeplitz_matrix(Delta)
-- 
2.43.0


From f195d3db19f67e8f19a1f9dd8afe4f4fbfb00a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:51 +0000
Subject: [PATCH 34/42] fix: zero dimensional arrays were taken for sequences

Periods and heights given as zero dimensional arrays or tensors and sampled
functions returning them (as efficiencies are on most backends) failed.
---
 nannos/sample.py        | 3 ++-
 nannos/simulation.py    | 5 +++--
 nannos/utils/helpers.py | 3 ++-
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/nannos/sample.py b/nannos/sample.py
index 75f6188..b52fdc6 100644
--- a/nannos/sample.py
+++ b/nannos/sample.py
@@ -11,6 +11,7 @@ __all__ = ["adaptive_sampler"]
 import numpy as np
 
 from .parallel import parloop
+from .utils import is_scalar
 
 
 def adaptive_sampler(f, x, max_bend=10, max_x_rel=1e-3, max_df=0.05, n_jobs=1):
@@ -104,7 +105,7 @@ def adaptive_sampler(f, x, max_bend=10, max_x_rel=1e-3, max_df=0.05, n_jobs=1):
         return np.unique(new_x)
 
     y = _function_adapted(x)
-    if hasattr(y[0], "__len__") and len(y[0]) > 0:
+    if not is_scalar(y[0]) and len(y[0]) > 0:
         y_monitor = [_[0] for _ in y]
         multi_output = True
     else:
diff --git a/nannos/simulation.py b/nannos/simulation.py
index d131747..57f4fd4 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -14,7 +14,8 @@ from . import get_types, jit, logger
 from .formulations import fft
 from .layers import _get_layer
 from .plot import plot_structure, pyvista
-from .utils import block, block2list, get_block, inv2by2block, norm, set_index
+from .utils import block, block2list, get_block, inv2by2block, is_scalar, norm
+from .utils import set_index
 from .utils import time as timer
 from .utils import unique
 from .utils.helpers import _reseter
@@ -353,7 +354,7 @@ class Simulation:
             self.solve()
         layer = self._get_solved_layer(layer_index)
         ai0, bi0 = self._get_amplitudes(layer_index, translate=False)
-        Z = z if hasattr(z, "__len__") else [z]
+        Z = [z] if is_scalar(z) else z
         fields = bk.zeros((len(Z), 2, 3, self.nh), dtype=COMPLEX)
         for iz, z_ in enumerate(Z):
             ai, bi = _translate_amplitudes(layer, z_, ai0, bi0)
diff --git a/nannos/utils/helpers.py b/nannos/utils/helpers.py
index afc1ad1..104e010 100644
--- a/nannos/utils/helpers.py
+++ b/nannos/utils/helpers.py
@@ -49,7 +49,8 @@ def unique(x):
 
 
 def is_scalar(x):
-    return not hasattr(x, "__len__")
+    # zero dimensional arrays have a `__len__` attribute but no length
+    return not hasattr(x, "__len__") or getattr(x, "shape", None) == ()
 
 
 def is_anisotropic(x):
-- 
2.43.0


From e0719a0cc4aa3a92ca45a7ae09d04c2fab379ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:51 +0000
Subject: [PATCH 35/42] fix: gradients were lost in lists of torch tensors

Wavevectors, amplitudes and angles are built as lists of tensors, which
torch.tensor detaches.
---
 nannos/__init__.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/nannos/__init__.py b/nannos/__init__.py
index fb588e8..1c8f99c 100644
--- a/nannos/__init__.py
+++ b/nannos/__init__.py
@@ -327,9 +327,19 @@ elif "_TORCH" in globals():
 
         backend = torch
 
+        def _requires_grad(a):
+            if isinstance(a, (list, tuple)):
+                return any(_requires_grad(_a) for _a in a)
+            return isinstance(a, backend.Tensor) and a.requires_grad
+
         def _array(a, **kwargs):
             if isinstance(a, backend.Tensor):
                 return a.to(torch.device(DEVICE))
+            elif _requires_grad(a):
+                # torch.tensor would detach the elements
+                out = backend.stack([_array(_a, **kwargs) for _a in a])
+                dtype = kwargs.get("dtype")
+                return out if dtype is None else out.to(dtype)
             else:
                 return backend.tensor(a, **kwargs).to(torch.device(DEVICE))
 
-- 
2.43.0


From 718b7ef5924a73664ea8a42c31f43805307232ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:51 +0000
Subject: [PATCH 36/42] fix: gradients with respect to a zero thickness were
 lost

---
 nannos/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index 57f4fd4..63ec4ac 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -303,8 +303,8 @@ class Simulation:
             for i in stack:
                 layer = self._get_solved_layer(i)
                 layer_next = self._get_solved_layer(i + 1)
-                z = layer.thickness or 0
-                z_next = layer_next.thickness or 0
+                z = 0 if layer.thickness is None else layer.thickness
+                z_next = 0 if layer_next.thickness is None else layer_next.thickness
                 f, f_next = bk.diag(phasor(layer.eigenvalues, z)), bk.diag(
                     phasor(layer_next.eigenvalues, z_next)
                 )
-- 
2.43.0


From 1067840d1f07b3b3e361309e386d13745b077276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:51 +0000
Subject: [PATCH 37/42] fix: gradients of complex amplitudes were NaN with
 evanescent orders

---
 nannos/simulation.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index 63ec4ac..55162bc 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -557,8 +557,14 @@ class Simulation:
         norma_t2 = nin**2 * (gamma_out / gamma_in0)
         norma_r2 = nin**2 * (gamma_in / gamma_in0)
 
-        norma_t = (norma_t2.real) ** 0.5
-        norma_r = (norma_r2.real) ** 0.5
+        def _sqrt_real(x):
+            # zero for evanescent orders, with a zero (and not infinite) derivative
+            x = bk.real(x)
+            evanescent = x == 0
+            return bk.where(evanescent, 0 * x, bk.where(evanescent, 1 + 0 * x, x) ** 0.5)
+
+        norma_t = _sqrt_real(norma_t2)
+        norma_r = _sqrt_real(norma_r2)
 
         t = self.get_field_fourier(-1)[0, 0] * norma_t
         bx0 = self.get_field_fourier(0)[0, 0] * norma_r
-- 
2.43.0


From d54e09c5574d883e69643594a27bc67a8dd91398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:51 +0000
Subject: [PATCH 38/42] fix: anisotropic layers on non-square grids failed with
 tangent formulations

---
 nannos/simulation.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index 55162bc..d824249 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -834,10 +834,15 @@ class Simulation:
         epsilon = layer.epsilon
         if layer.is_epsilon_anisotropic:
             N = epsilon.shape[2]
-            eb = block(_tangential_tensor(epsilon))
-            nu = inv2by2block(eb, N)
+            eb = _tangential_tensor(epsilon)
+            det = eb[0][0] * eb[1][1] - eb[1][0] * eb[0][1]
             # nu = _inv(epsilon[2,2])
-            nu1 = bk.stack([bk.stack(row) for row in block2list(nu, N)])
+            nu1 = bk.stack(
+                [
+                    bk.stack([eb[1][1] / det, -eb[0][1] / det]),
+                    bk.stack([-eb[1][0] / det, eb[0][0] / det]),
+                ]
+            )
             nuhat = self._get_toeplitz_matrix(nu1, transverse=True)
             nuhat_inv = block2list(_inv(block(nuhat)), self.nh)
 
-- 
2.43.0


From 718834d741c396e842e18eeccf1059ebcdb9180f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:51 +0000
Subject: [PATCH 39/42] fix: fields and stresses could not be differentiated

Fields were assigned into an array, which autograd does not support.
---
 nannos/simulation.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index d824249..f7a3fae 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -355,8 +355,8 @@ class Simulation:
         layer = self._get_solved_layer(layer_index)
         ai0, bi0 = self._get_amplitudes(layer_index, translate=False)
         Z = [z] if is_scalar(z) else z
-        fields = bk.zeros((len(Z), 2, 3, self.nh), dtype=COMPLEX)
-        for iz, z_ in enumerate(Z):
+        fields = []
+        for z_ in Z:
             ai, bi = _translate_amplitudes(layer, z_, ai0, bi0)
             ht_fourier = layer.eigenvectors @ (ai + bi)
             hx, hy = ht_fourier[: self.nh], ht_fourier[self.nh :]
@@ -371,11 +371,12 @@ class Simulation:
             else:
                 # ez = layer.eps_hat_inv @ ez
                 ez = bk.linalg.solve(layer.eps_hat, ez)
-            for i, comp in enumerate([ex, ey, ez]):
-                fields = set_index(fields, [iz, 0, i], comp)
-            for i, comp in enumerate([hx, hy, hz]):
-                fields = set_index(fields, [iz, 1, i], comp)
-        fields_fourier = bk.array(fields)
+            # stacked rather than assigned so that gradients can be computed
+            fields.append(bk.stack([bk.stack([ex, ey, ez]), bk.stack([hx, hy, hz])]))
+        if fields:
+            fields_fourier = bk.array(bk.stack(fields))
+        else:
+            fields_fourier = bk.zeros((0, 2, 3, self.nh), dtype=COMPLEX)
         _t1 = timer.toc(_t0, verbose=False)
         logger.info(
             f"Done retrieving fields in k-space for layer {layer} in {_t1:0.3e}s"
@@ -596,9 +597,9 @@ class Simulation:
             dx = dxy[self.nh :]
             dy = -dxy[: self.nh]
 
-        Tx = bk.sum(ex * bk.conj(dz) + hx * bk.conj(hz), axis=-1).real
-        Ty = bk.sum(ey * bk.conj(dz) + hy * bk.conj(hz), axis=-1).real
-        Tz = (
+        Tx = bk.real(bk.sum(ex * bk.conj(dz) + hx * bk.conj(hz), axis=-1))
+        Ty = bk.real(bk.sum(ey * bk.conj(dz) + hy * bk.conj(hz), axis=-1))
+        Tz = bk.real(
             0.5
             * bk.sum(
                 ez * bk.conj(dz)
@@ -608,7 +609,7 @@ class Simulation:
                 - hx * bk.conj(hx)
                 - hy * bk.conj(hy),
                 axis=-1,
-            ).real
+            )
         )
         return Tx, Ty, Tz
 
-- 
2.43.0


From 8ff79635cc5aeab5a7e30da40091903ff37b2187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:51 +0000
Subject: [PATCH 40/42] fix: structure plots failed with current pyvista and
 with torch

---
 nannos/plot.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nannos/plot.py b/nannos/plot.py
index 3dcb6bb..c0fafa9 100644
--- a/nannos/plot.py
+++ b/nannos/plot.py
@@ -99,7 +99,7 @@ def plot_structure(
 
     p = plotter or pyvista.Plotter()
     name = r"permittivity (Re)"
-    null_thickness = null_thickness or bk.max([layer.thickness for layer in sim.layers])
+    null_thickness = null_thickness or max(layer.thickness for layer in sim.layers)
     bvs = sim.lattice.basis_vectors
 
     transform_matrix = bk.array(
@@ -138,7 +138,7 @@ def plot_structure(
                         val = layer.epsilon.real
                         grid.cell_data[name] = bk.array(val)
                         mesh = grid.extract_surface()
-                        mesh = mesh.transform(transform_matrix)
+                        mesh = mesh.transform(transform_matrix, inplace=True)
                         if layer_colors is not None:
                             kwargs["color"] = layer_colors[ilayer]
                         if layer_metallic is not None:
@@ -177,7 +177,7 @@ def plot_structure(
                                 [v - 1e-7 * abs(v), v + 1e-7 * abs(v)]
                             )
 
-                            threshed = threshed.transform(transform_matrix)
+                            threshed = threshed.transform(transform_matrix, inplace=True)
 
                             if layer_colors is not None:
                                 kwargs["color"] = layer_colors[ilayer][ival]
-- 
2.43.0


From 4455f9f84a32304701b8db4973b0e1bcff22a5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:51 +0000
Subject: [PATCH 41/42] fix: structure plots of layers on non-square grids were
 distorted

---
 nannos/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/plot.py b/nannos/plot.py
index c0fafa9..c6f7fe9 100644
--- a/nannos/plot.py
+++ b/nannos/plot.py
@@ -166,7 +166,7 @@ def plot_structure(
                     values = epsgrid[:, :, None]
                     # Create the spatial reference
                     grid = pyvista.ImageData()
-                    grid.dimensions = bk.array(values.shape) + 1
+                    grid.dimensions = (Nx + 1, Ny + 1, 2)
                     grid.origin = (x0, y0, z)  # The bottom left corner of the data set
                     grid.spacing = (1 / Nx, 1 / Ny, thickness)
                     grid.cell_data[name] = values.flatten()  # Flatten the array!
-- 
2.43.0


From d1a78c87cc3fb75298a6b62953c063936b2e31e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:27 +0000
Subject: [PATCH 42/42] fix: adaptive sampler paired intervals with the wrong
 values for unsorted starting points

---
 nannos/sample.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nannos/sample.py b/nannos/sample.py
index b52fdc6..13c7c55 100644
--- a/nannos/sample.py
+++ b/nannos/sample.py
@@ -104,6 +104,8 @@ def adaptive_sampler(f, x, max_bend=10, max_x_rel=1e-3, max_df=0.05, n_jobs=1):
                     new_x.append(x_new)
         return np.unique(new_x)
 
+    # values are taken in the order of the points
+    x = x[np.argsort(x)]
     y = _function_adapted(x)
     if not is_scalar(y[0]) and len(y[0]) > 0:
         y_monitor = [_[0] for _ in y]
-- 
2.43.0

