From 9df41dda2faef00845a99e6e1e76eaaeb4f439c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:40 +0000
Subject: [PATCH 01/29] fix: use_backend restores the backend active on entry,
 not on construction

---
 lumos/numpy/utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lumos/numpy/utils.py b/lumos/numpy/utils.py
index 7041ab7..bf61f70 100644
--- a/lumos/numpy/utils.py
+++ b/lumos/numpy/utils.py
@@ -13,14 +13,18 @@ logger = logging.getLogger(__name__)
 
 class use_backend(ContextDecorator):
     def __init__(self, backend: str):
-        self._original_backend = lnp.get_backend()
         self._target_backend = backend
+        # NOTE: the backend to return to is the one active on entry, not the one active
+        # when the context manager (or the decorated function) is created. It is kept
+        # on a stack because the same instance could be entered again while active.
+        self._original_backends = []
 
     def __enter__(self):
+        self._original_backends.append(lnp.get_backend())
         lnp.set_backend(self._target_backend)
 
     def __exit__(self, *exc):
-        lnp.set_backend(self._original_backend)
+        lnp.set_backend(self._original_backends.pop())
 
 
 def is_jax_array(x: Any) -> bool:
-- 
2.43.0


From 1ae540a508959022f06904b5b557807995a8cfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:40 +0000
Subject: [PATCH 02/29] fix: a failed forward call no longer leaves submodel
 returns in the buffer

---
 lumos/models/base.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/lumos/models/base.py b/lumos/models/base.py
index cd8518e..0579333 100644
--- a/lumos/models/base.py
+++ b/lumos/models/base.py
@@ -3,6 +3,7 @@ import logging
 import subprocess
 from abc import abstractmethod
 from collections import namedtuple
+from functools import wraps
 from os.path import exists, getsize
 from typing import Any, Dict, List, NamedTuple, Optional, Tuple
 
@@ -121,9 +122,32 @@ class ArrayStateSpaceModelReturn(NamedTuple):
     residuals: lnp.ndarray = np.array([])
 
 
+def _clear_buffer_on_error(forward):
+    """Make a failed forward call drop the submodel returns it has collected so far.
+
+    Otherwise the next forward call, even with valid inputs, would find a buffer that is
+    still populated with the submodel returns of the failed call.
+    """
+
+    @wraps(forward)
+    def wrapped(self, *args, **kwargs):
+        try:
+            return forward(self, *args, **kwargs)
+        except BaseException:
+            self._clear_submodel_return_buffer()
+            raise
+
+    return wrapped
+
+
 class Model(CompositeModel):
     """Abstract class for mathematical models of the simplest form."""
 
+    def __init_subclass__(cls, **kwargs):
+        super().__init_subclass__(**kwargs)
+        if "forward" in cls.__dict__:
+            cls.forward = _clear_buffer_on_error(cls.__dict__["forward"])
+
     def __init__(
         self, model_config: Dict[str, Any] = {}, params: Dict[str, Any] = {},
     ):
-- 
2.43.0


From 6885aa951bf072625659d7ac85fc7ca8b54f9b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:10 +0000
Subject: [PATCH 03/29] fix: model evaluations restore the model's own
 parameters, also on failure

---
 lumos/models/base.py | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/lumos/models/base.py b/lumos/models/base.py
index 0579333..dab3a24 100644
--- a/lumos/models/base.py
+++ b/lumos/models/base.py
@@ -3,6 +3,7 @@ import logging
 import subprocess
 from abc import abstractmethod
 from collections import namedtuple
+from contextlib import contextmanager
 from functools import wraps
 from os.path import exists, getsize
 from typing import Any, Dict, List, NamedTuple, Optional, Tuple
@@ -464,9 +465,23 @@ class StateSpaceModel(Model):
         self.set_recursive_params(params)
         return self.forward(states, inputs, mesh)
 
+    @contextmanager
+    def _temporary_params(self, params: ParameterTree):
+        """Use the given params inside the context, then restore the model's own ones.
+
+        The params could be tracers or symbolic variables of the backends, which must
+        not be left in the model, also not when the call inside the context fails.
+        """
+        original_params = self.get_recursive_params()
+        try:
+            self.set_recursive_params(params)
+            yield
+        finally:
+            self.set_recursive_params(original_params)
+
     def apply_and_forward_with_arrays(self, states, inputs, mesh, params):
-        self.set_recursive_params(params)
-        return self.forward_with_arrays(states, inputs, mesh)
+        with self._temporary_params(params):
+            return self.forward_with_arrays(states, inputs, mesh)
 
     def _construct_io_names(self):
         """Create model io names while also taking into account submodels compositoin.
@@ -607,16 +622,16 @@ class StateSpaceModel(Model):
     def _apply_and_flat_implicit(
         self, flat_vars: lnp.ndarray, mesh: float, params,
     ) -> lnp.ndarray:
-        self.set_recursive_params(params)
         # TODO: split to dict of arrays -> call in implicit with forward_with_arrays
         # -> convert to dict again, call with dict, can we simplify?
         #
         # NOTE: that's ok for states and inputs, but implicit also requires states_dot
         # and con_outputs, which we will never use as dict, and it's easier to use them
         # as arrays!
-        dict_vars = self._split_flat_vars(flat_vars)
+        with self._temporary_params(params):
+            dict_vars = self._split_flat_vars(flat_vars)
 
-        return self.implicit(**dict_vars, mesh=mesh)
+            return self.implicit(**dict_vars, mesh=mesh)
 
     def _implicit_jac(self, flat_vars, mesh, params):
         raise NotImplementedError(
@@ -793,8 +808,8 @@ class StateSpaceModel(Model):
         )
 
         def custom_batched_forward(_states, _inputs, _mesh, _params):
-            self.set_recursive_params(_params)
-            out = lnp.lmap(self.forward)(_states, _inputs, _mesh)
+            with self._temporary_params(_params):
+                out = lnp.lmap(self.forward)(_states, _inputs, _mesh)
             return StateSpaceModelReturn(*out)
 
         self._batched_forward = custom_batched_forward
-- 
2.43.0


From 1d87f7ff0a87e80c3ef5d8acbdbe67ccff49c08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:10 +0000
Subject: [PATCH 04/29] fix: building a problem or a config no longer modifies
 the user's settings

---
 lumos/optimal_control/scaled_mesh_ocp.py | 6 ++++--
 lumos/simulations/laptime_simulation.py  | 2 ++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index 31c2849..16b7e36 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -129,16 +129,18 @@ class ScaledMeshOCP(CompositeProblem):
         if sim_config.is_cyclic:
             self._build_cyclic_cons(sim_config.non_cyclic_vars)
 
+        bounds = sim_config.bounds
         if self.is_condensed:
             self._build_condensed_model_algebra()
             # The states_dot decision variables are un-used, so we set it to
             # 0, and IPOPT will take them out of the NLP depending the settings.
-            sim_config.bounds += tuple(
+            # NOTE: this must not be added to the config, which belongs to the user.
+            bounds = tuple(bounds) + tuple(
                 BoundConfig("states_dot", n, (0, 0))
                 for n in self.model.get_group_names("states_dot")
             )
 
-        self.update_bounds(sim_config.bounds)
+        self.update_bounds(bounds)
 
         # Set specific boundary conditions of variables at certain stages
         self.update_boundary_conditions(sim_config.boundary_conditions)
diff --git a/lumos/simulations/laptime_simulation.py b/lumos/simulations/laptime_simulation.py
index 379428b..7e4fd04 100644
--- a/lumos/simulations/laptime_simulation.py
+++ b/lumos/simulations/laptime_simulation.py
@@ -128,6 +128,8 @@ class LTCConfig(SimConfig):
         # NOTE: somehow if we make track_curvature also non_cyclic, convergence got
         # a lot worse. This is counterintuitive as one would imagine the track curvature
         # from finite difference isn't actually cyclic! (but it's close, ~1e-5 delta)
+        # NOTE: we append to a copy, as the list could be shared with other configs.
+        self.non_cyclic_vars = list(self.non_cyclic_vars)
         for name in ["states.time", "inputs.track_heading"]:
             if name not in self.non_cyclic_vars:
                 logger.warning(
-- 
2.43.0


From 2089c2bfabf18aa3c2947e5312e3efd199ba95f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:10 +0000
Subject: [PATCH 05/29] fix: hessian uses stale indices after constraints or
 objectives change

---
 lumos/optimal_control/nlp.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lumos/optimal_control/nlp.py b/lumos/optimal_control/nlp.py
index 81ab86f..88c781e 100644
--- a/lumos/optimal_control/nlp.py
+++ b/lumos/optimal_control/nlp.py
@@ -688,6 +688,7 @@ class CompositeProblem(NLPFunction):
         self._idx_triu: np.ndarray = (
             None  # index of upper triangular entries in the hessian.
         )
+        # NOTE: it must be reset when the constraints or the objectives change.
 
         # Set default varaible bounds and constraint bounds
         self.set_default_bounds()
@@ -717,10 +718,12 @@ class CompositeProblem(NLPFunction):
         # Update the input scales using the nlp's dec_var_scales
         c.set_input_scales(self._dec_var_scales)
         self._constraints.update({name: c})
+        self._idx_triu = None
 
     def delete_constraints(self, name: str):
         # FIXME: add checks
         self._constraints.pop(name)
+        self._idx_triu = None
 
     def add_objective(self, name: str, o: BaseObjective):
         """Add an objecitve function to the problem.
@@ -742,9 +745,11 @@ class CompositeProblem(NLPFunction):
         # decision variable scale
         o.set_input_scales(self._dec_var_scales)
         self._objectives.update({name: o})
+        self._idx_triu = None
 
     def delete_objective(self, name: str):
         self._objectives.pop(name)
+        self._idx_triu = None
 
 
     def _compute_objective(self, x):
-- 
2.43.0


From a2cdf8ce31090adf59de20a56faf603ab00676f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:10 +0000
Subject: [PATCH 06/29] fix: model parameters of a condensed problem can be
 modified

---
 lumos/optimal_control/scaled_mesh_ocp.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index 16b7e36..fbdd0db 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -13,6 +13,7 @@ from pyarrow import parquet as pq
 from scipy import sparse
 
 from lumos.models.base import StateSpaceModel
+from lumos.models.tree_utils import ParameterTree
 from lumos.optimal_control.nlp import (
     BaseConstraints,
     LinearConstraints,
@@ -158,18 +159,22 @@ class ScaledMeshOCP(CompositeProblem):
         return cls.ConfigClass(*args, **kwargs)
 
     def _set_model_params(self, model_params):
-        self._params = model_params
-        self.model.set_recursive_params(model_params)
+        # NOTE: copy, so that the problem doesn't share its parameters with the caller.
+        self._params = ParameterTree.from_dict(model_params.to_dict())
+        self.model.set_recursive_params(self._params)
         # FIXME: using interal attributes. At the moment only model_algebra constraints
         # need the parameters (and we put all model-related computation there)
         # We could make the entire 'CompositeProblem' parameterized, but that might
         # be an over-complication.
-        self._constraints["model_algebra"].set_params(model_params)
+        self._stage_cons.set_params(self._params)
 
     def modify_model_param(self, path, value):
-        self._params.set_param(path, value)
-        # FIXME: using self._params as an argument feels a bit odd..
-        self._set_model_params(self._params)
+        # Work on a copy so that nothing changes if the path is not valid.
+        params = ParameterTree.from_dict(self._params.to_dict())
+        # Ensure the parameter to change does actually exist
+        params.get_param(path)
+        params.set_param(path, value)
+        self._set_model_params(params)
 
     def _build_cyclic_vars(self, non_cyclic_vars: List[str]):
         """Build a list of cyclic variables, removing those that are non-cyclic."""
@@ -1295,6 +1300,10 @@ class ScaledMeshOCP(CompositeProblem):
             params=self._params,
         )
 
+        # Keep a reference, as with the condensed problem these are not in the problem's
+        # own constraints anymore.
+        self._stage_cons = stage_cons
+
         # FIXME: currently the unpacking in interval con relies on the order here
         self.add_constraints("model_algebra", stage_cons)
 
-- 
2.43.0


From 544c6d0589a80e0402696e27c6067d71a498f982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:10 +0000
Subject: [PATCH 07/29] fix: np.int doesn't exist in recent numpy versions

---
 lumos/optimal_control/scaled_mesh_ocp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index fbdd0db..3533489 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -470,7 +470,7 @@ class ScaledMeshOCP(CompositeProblem):
             # If mesh_scale is a variable, then the continuity constraints also has
             # non-zero hessian entries.
             cont_rows = np.arange(self.num_dec)
-            cont_cols = np.ones(self.num_dec, dtype=np.int) * (self.num_dec - 1)
+            cont_cols = np.ones(self.num_dec, dtype=int) * (self.num_dec - 1)
             rows = np.hstack([rows.ravel(), cont_rows])
             cols = np.hstack([cols.ravel(), cont_cols])
 
-- 
2.43.0


From 85e639b32d0841b7570a32e72f996f198cea6588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:47 +0000
Subject: [PATCH 08/29] fix: changing the mesh of an existing problem also
 updates the model algebra

---
 lumos/optimal_control/convolution.py     |  5 ++++-
 lumos/optimal_control/scaled_mesh_ocp.py |  8 +++++++
 lumos/simulations/laptime_simulation.py  | 28 +++++++++++++++++++-----
 3 files changed, 34 insertions(+), 7 deletions(-)

diff --git a/lumos/optimal_control/convolution.py b/lumos/optimal_control/convolution.py
index 8e11a9e..5c62220 100644
--- a/lumos/optimal_control/convolution.py
+++ b/lumos/optimal_control/convolution.py
@@ -45,7 +45,7 @@ class ConvConstraints(MappedConstraints):
         """
 
         self._unit_problem = unit_problem
-        self._normalized_mesh = normalized_mesh
+        self.set_normalized_mesh(normalized_mesh)
         self._mesh_scale_fn = mesh_scale_fn
         self._op = dec_var_op
         self._batch = dec_var_op.num_stages
@@ -111,6 +111,9 @@ class ConvConstraints(MappedConstraints):
         else:
             self._params = params
 
+    def set_normalized_mesh(self, normalized_mesh: np.ndarray):
+        self._normalized_mesh = normalized_mesh
+
     def _transform_inputs(self, x):
         stage_vars, _ = self._op.split_stage_and_global_vars(x)
 
diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index 3533489..de45052 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -59,6 +59,9 @@ class ScaledMeshOCP(CompositeProblem):
     # conditions we have set just by looking at the upper and lower bound.
     _boundary_conditions: Tuple[BoundaryConditionConfig] = ()
 
+    # Model algebra constraints of all stages, see _build_model_algebra
+    _stage_cons: ConvConstraints = None
+
     # see: https://cyipopt.readthedocs.io/en/stable/reference.html
     # for callback arguments
     _metric_names: List[str] = [
@@ -534,6 +537,11 @@ class ScaledMeshOCP(CompositeProblem):
 
             self._normalized_interval_mesh.append(current_interval_mesh)
 
+        # When the mesh is changed after the problem is created, the model algebra needs
+        # the new mesh as well.
+        if self._stage_cons is not None:
+            self._stage_cons.set_normalized_mesh(self._flat_normalized_mesh)
+
     @property
     def _flat_normalized_mesh(self) -> np.ndarray:
         # Stack all interval mesh togther, omitting the overlapping stage.
diff --git a/lumos/simulations/laptime_simulation.py b/lumos/simulations/laptime_simulation.py
index 7e4fd04..09b8d7a 100644
--- a/lumos/simulations/laptime_simulation.py
+++ b/lumos/simulations/laptime_simulation.py
@@ -141,6 +141,8 @@ class LTCConfig(SimConfig):
 class LaptimeSimulation(FixedMeshOCP):
     ConfigClass: type = LTCConfig
 
+    _track: RaceTrack = None
+
     def __init__(
         self,
         model_params: Dict[str, Any] = {},
@@ -181,16 +183,30 @@ class LaptimeSimulation(FixedMeshOCP):
         """
 
         # Create track object
-        self._track = RaceTrack.from_tum_csv(track_file)
+        track = RaceTrack.from_tum_csv(track_file)
+
+        # update variable bounds
+        self._update_track_bounds(track)
+
+        # Only use the new track once nothing could fail anymore, so that a failure can't
+        # leave the problem with only part of the new track.
+        self._track = track
 
         # update mesh_scale
         self.set_mesh_scale(self._track.total_distance)
 
-        # update variable bounds
-        curvature = self._track.curvature_at(self.distance_mesh)
-        heading = self._track.heading_at(self.distance_mesh)
-        left_distance = self._track.left_distance_at(self.distance_mesh)
-        right_distance = self._track.right_distance_at(self.distance_mesh)
+    def set_normalized_mesh(self, interval_points=None):
+        """Overwrite parent method as the track bounds depend on the mesh."""
+        super().set_normalized_mesh(interval_points)
+        if self._track is not None:
+            self._update_track_bounds(self._track)
+
+    def _update_track_bounds(self, track: RaceTrack):
+        distance_mesh = self._flat_normalized_mesh * track.total_distance
+        curvature = track.curvature_at(distance_mesh)
+        heading = track.heading_at(distance_mesh)
+        left_distance = track.left_distance_at(distance_mesh)
+        right_distance = track.right_distance_at(distance_mesh)
 
         track_bounds = (
             BoundConfig("inputs", "track_curvature", (curvature, curvature)),
-- 
2.43.0


From 29685262d997df3f29e5942bf9d6c3a783d5b94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:47 +0000
Subject: [PATCH 09/29] fix: an invalid bound, boundary condition or scale
 leaves the problem unchanged

---
 lumos/optimal_control/scaled_mesh_ocp.py | 42 +++++++++++++++++-------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index de45052..a63cb05 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -1,4 +1,5 @@
 from abc import abstractmethod
+from contextlib import contextmanager
 import glob
 import logging
 import os
@@ -642,15 +643,28 @@ class ScaledMeshOCP(CompositeProblem):
         overwrite the earlier ones, so that only the last one will remain in effect.
         """
 
-        # Overwrite with external bound settings
-        for b in bounds:
-            self._set_var_bounds(
-                group=b.group, name=b.name, stage=None, bounds=b.values
-            )
+        with self._restore_bounds_on_error():
+            # Overwrite with external bound settings
+            for b in bounds:
+                self._set_var_bounds(
+                    group=b.group, name=b.name, stage=None, bounds=b.values
+                )
 
-        # Apply the boundary conditions again, as when we set all the bounds, the
-        # boundary conditions will be overwritten.
-        self._apply_boundary_conditions()
+            # Apply the boundary conditions again, as when we set all the bounds, the
+            # boundary conditions will be overwritten.
+            self._apply_boundary_conditions()
+
+    @contextmanager
+    def _restore_bounds_on_error(self):
+        """Ensure that an invalid setting doesn't leave the bounds partially updated"""
+        lb, ub = np.copy(self.lb), np.copy(self.ub)
+        boundary_conditions = self._boundary_conditions
+        try:
+            yield
+        except BaseException:
+            self.lb, self.ub = lb, ub
+            self._boundary_conditions = boundary_conditions
+            raise
 
     def set_scales(self, scale_configs: Tuple[ScaleConfig]):
         """Construct variable scales
@@ -681,14 +695,17 @@ class ScaledMeshOCP(CompositeProblem):
         var_scales["global"] = np.ones(op.num_global_var)
 
         # create default decision variable scales
-        self._dec_var_scales = np.ones(self.num_dec)
+        dec_var_scales = np.ones(self.num_dec)
 
         # Overwrite with scales from configs and update decision variable scales
         for sc in scale_configs:
             var_scales[sc.group][
                 op.get_var_index_in_group(sc.group, sc.name)
             ] = sc.value
-            self._dec_var_scales[op.get_var_index_in_dec(sc.group, sc.name)] = sc.value
+            dec_var_scales[op.get_var_index_in_dec(sc.group, sc.name)] = sc.value
+
+        # Only use the new scales once all the configs are known to be valid
+        self._dec_var_scales = dec_var_scales
 
         # Set input scales for all objectives
         for _, o in self._objectives.items():
@@ -740,8 +757,9 @@ class ScaledMeshOCP(CompositeProblem):
         self, boundary_conditions: Tuple[BoundaryConditionConfig]
     ):
         """Store new boundary conditions to the problem. Will append instead of reset."""
-        self._boundary_conditions += boundary_conditions
-        self._apply_boundary_conditions()
+        with self._restore_bounds_on_error():
+            self._boundary_conditions += tuple(boundary_conditions)
+            self._apply_boundary_conditions()
 
     def _apply_boundary_conditions(self):
         """Apply the boundary conditions stored."""
-- 
2.43.0


From a66a54d336750577fa08d1929213398c8cf74c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:47 +0000
Subject: [PATCH 10/29] fix: hessian of the model solver uses a key that
 doesn't exist

---
 lumos/optimal_control/model_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumos/optimal_control/model_solver.py b/lumos/optimal_control/model_solver.py
index d620c36..cc96f55 100644
--- a/lumos/optimal_control/model_solver.py
+++ b/lumos/optimal_control/model_solver.py
@@ -52,7 +52,7 @@ class ModelSolver(CompositeProblem):
             return np.array(implicit_functions["jacobian"](*args).nonzeros())
 
         def _hessian(*args):
-            return np.array(implicit_functions["_hessian"](*args).nonzeros())
+            return np.array(implicit_functions["hessian"](*args).nonzeros())
 
         # FIXME: we create CasMappedConstraints (839 in base.py), but it actually is NOT
         # a Constriant that can be executed with its .constraints method, as it requires
-- 
2.43.0


From 4b00e1f959e76e97c66420775bcfbbb05761b694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:47 +0000
Subject: [PATCH 11/29] fix: condensed jacobian structure doesn't depend on a
 random point

---
 lumos/optimal_control/scaled_mesh_ocp.py | 32 +++++++++++++-----------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index a63cb05..6034ea8 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -339,25 +339,29 @@ class ScaledMeshOCP(CompositeProblem):
 
     def _condensed_jacobianstructure(self):
         """Return jacobian structure by a pessimistic estimate"""
-        # We estimate the sparsity by passing in a random vecotr. There is the risk
-        # that the sparse library would actually remove explicit zeros (opposite to
-        # structural zeros, these are values that happen to be zero at this point of
-        # calculation and make the estimation more optimistic/sparser). But the risk
-        # is pretty low when we're using float, and it's probably very very small
-        # probability that float computations will become 'zero' accidentally.
-        #
-        # If we want to be conservative, we could create the algebraic and continuity
-        # jacobians with no explicit zeros, which would probably give a more
-        # pessimistic estimate.
-        x0 = np.random.randn(self.num_dec)
-        algebraic_jac = self._con_storage["model_algebra"].get_csc_jacobian(x0)
-        continuity_jac = self._con_storage["continuity"].get_csc_jacobian(x0)
+        # We estimate the sparsity from jacobians with the given structure and no
+        # explicit zeros. Using the jacobian values at some point instead would risk
+        # losing those entries that happen to be zero at that point, but not elsewhere
+        # (eg: the inactive branch of a conditional)
+        def _get_ones_jacobian(con):
+            rows, cols = con.jacobianstructure()
+            rows, cols = np.ravel(rows), np.ravel(cols)
+            return sparse.csc_matrix((np.ones(len(rows)), (rows, cols)), con.jac_shape)
+
+        algebraic_jac = _get_ones_jacobian(self._con_storage["model_algebra"])
+        continuity_jac = _get_ones_jacobian(self._con_storage["continuity"])
         # This jac should have a pessimistic structure: the least possible sparsity
         structure_jac = self._make_chainrule_condensed_jacobian(
             continuity_jac, algebraic_jac
         )
 
-        return structure_jac.nonzero()
+        rows, cols = structure_jac.nonzero()
+        # The condensed constraints don't depend on states_dot, so the entries in these
+        # columns are always zero.
+        idx_states_dot = self.dec_var_operator.get_group_indcies_in_dec("states_dot")
+        keep = ~np.isin(cols, idx_states_dot)
+
+        return rows[keep], cols[keep]
 
     def _condensed_hessian(self, x, lagrange):
         """Compute the condensed hessian values.
-- 
2.43.0


From 39538b61065b44deea64e48ea0ddc3f69aed333d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:42 +0000
Subject: [PATCH 12/29] fix: compiled casadi libraries are created atomically
 in a private directory

---
 lumos/models/base.py | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/lumos/models/base.py b/lumos/models/base.py
index dab3a24..e2ed7ba 100644
--- a/lumos/models/base.py
+++ b/lumos/models/base.py
@@ -5,7 +5,9 @@ from abc import abstractmethod
 from collections import namedtuple
 from contextlib import contextmanager
 from functools import wraps
-from os.path import exists, getsize
+from os import replace
+from os.path import exists, join
+from tempfile import TemporaryDirectory
 from typing import Any, Dict, List, NamedTuple, Optional, Tuple
 
 import casadi as cas
@@ -844,9 +846,8 @@ class StateSpaceModel(Model):
 
         # Generate code
         filename = "nlpfunctions"
-        cfile = filename + ".c"
         # FIXME: path management, currently local directory only
-        codegen = cas.CodeGenerator(cfile)
+        codegen = cas.CodeGenerator(filename + ".c")
 
         codegen.add(
             cas.Function(
@@ -866,25 +867,29 @@ class StateSpaceModel(Model):
                 [lagrange_hessian],
             )
         )
-        codegen.generate()
+        code = codegen.dump()
 
-        logger.info(f"Generated c-code with {getsize(cfile)} lines: ")
+        logger.info(f"Generated c-code with {len(code)} characters: ")
         # Call compiler if no library exists already
-        with open(cfile, "rb") as f:
-            file_hash = hashlib.md5()
-            for chunk in iter(lambda: f.read(8192), b""):
-                file_hash.update(chunk)
-
-        library_name = file_hash.hexdigest()
+        library_name = hashlib.md5(code.encode()).hexdigest()
         library_path = "./" + library_name + ".so"
 
         if exists(library_path):
             logger.info(f"{library_path} already exists, no compliation is needed.")
         else:
             logger.info(f"Compiling casadi library {library_path}")
-            cmd = ["gcc", "-fPIC", "-o2", "-shared", cfile, "-o", library_path]
-            p = subprocess.Popen(cmd)
-            p.wait()
+            # NOTE: compile in a private directory, and then move only the complete
+            # library to its final name. So that neither other processes working in the
+            # same directory nor an interrupted or failed compilation could make us use
+            # the wrong or an incomplete library.
+            with TemporaryDirectory(prefix=filename + "_", dir=".") as tmp_dir:
+                cfile = join(tmp_dir, filename + ".c")
+                tmp_library_path = join(tmp_dir, filename + ".so")
+                with open(cfile, "w") as f:
+                    f.write(code)
+                cmd = ["gcc", "-fPIC", "-o2", "-shared", cfile, "-o", tmp_library_path]
+                subprocess.run(cmd, check=True)
+                replace(tmp_library_path, library_path)
 
         # Wrap the functions to take in dict params
         # FIXME: fixed thread number
-- 
2.43.0


From 11bb977c8cd30b8c5b99fda062ad7f572e00ccf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:42 +0000
Subject: [PATCH 13/29] fix: simulations created in the same second share their
 logging directory

---
 lumos/optimal_control/scaled_mesh_ocp.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index 6034ea8..1bf3291 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -836,8 +836,18 @@ class ScaledMeshOCP(CompositeProblem):
             subdir_name = (
                 datetime.now().strftime("%Y%m%d-%H%M%S") + "_" + config.sim_name
             )
-            self._logging_dir = os.path.join(config.results_dir, subdir_name)
-            Path(self._logging_dir).mkdir(parents=True, exist_ok=True)
+            base_dir = logging_dir = os.path.join(config.results_dir, subdir_name)
+            # Another simulation could be created with the same name in the same second,
+            # so make sure that the directory is a new one.
+            suffix = 0
+            while True:
+                try:
+                    Path(logging_dir).mkdir(parents=True, exist_ok=False)
+                    break
+                except FileExistsError:
+                    suffix += 1
+                    logging_dir = f"{base_dir}_{suffix}"
+            self._logging_dir = logging_dir
             self._metrics_history_list = []
 
     @property
-- 
2.43.0


From 1862d41d873b48ed42e022ae80ab824b3873d1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:42 +0000
Subject: [PATCH 14/29] fix: records of a previous solve end up in the log of
 the next one

---
 lumos/optimal_control/nlp.py             |  3 +++
 lumos/optimal_control/scaled_mesh_ocp.py | 11 ++++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/lumos/optimal_control/nlp.py b/lumos/optimal_control/nlp.py
index 88c781e..26a7af7 100644
--- a/lumos/optimal_control/nlp.py
+++ b/lumos/optimal_control/nlp.py
@@ -586,6 +586,9 @@ class NLPFunction(ABC):
         zu=[],
         **user_options,
     ):
+        # Forget about the iterations of previous solves
+        self._num_iter = None
+
         # If the problem has no objectives defined (feasibility solve), define a
         # constatn objective
         if not self._objectives:
diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index 1bf3291..a7d29fb 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -208,6 +208,7 @@ class ScaledMeshOCP(CompositeProblem):
             self.profile(x0, repeat=1, hessian=self.hessian_approximation == "exact")
             logger.info("Triggering jax JIT completed")
         # Then solve.
+        self._reset_logging()
         out = super().solve(*args, **kwargs)
         # TODO: perhaps a better way is to register pre-solve and post-solve tasks.
         self._log_final_iter()
@@ -850,6 +851,13 @@ class ScaledMeshOCP(CompositeProblem):
             self._logging_dir = logging_dir
             self._metrics_history_list = []
 
+    def _reset_logging(self):
+        """Remove what a previous (potentially failed) solve could have left behind."""
+        if self.logging_config is not None:
+            self._metrics_history_list = []
+            for file in glob.glob(os.path.join(self._logging_dir, "iter_*.csv")):
+                os.remove(file)
+
     @property
     def logging_dir(self):
         return self._logging_dir
@@ -880,7 +888,8 @@ class ScaledMeshOCP(CompositeProblem):
     def _log_final_iter(self):
         # TODO: we should be able to do better than these hard-coded names everywhere.
         config = self.logging_config
-        if config is not None:
+        # There is nothing to log if the solver returned without any iteration
+        if config is not None and self._num_iter is not None:
             # Write the result file
             result_file = os.path.join(self._logging_dir, "results.csv")
             self._create_result_df(
-- 
2.43.0


From 51d8cd40248c20bdff0939baff6963bc3ab48eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:42 +0000
Subject: [PATCH 15/29] fix: the logged result is the solution that is returned

---
 lumos/optimal_control/scaled_mesh_ocp.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index a7d29fb..530d912 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -211,7 +211,7 @@ class ScaledMeshOCP(CompositeProblem):
         self._reset_logging()
         out = super().solve(*args, **kwargs)
         # TODO: perhaps a better way is to register pre-solve and post-solve tasks.
-        self._log_final_iter()
+        self._log_final_iter(out[0])
 
         return out
 
@@ -885,15 +885,18 @@ class ScaledMeshOCP(CompositeProblem):
                     iter_num=iter_num,
                 )
 
-    def _log_final_iter(self):
+    def _log_final_iter(self, solution: np.ndarray):
         # TODO: we should be able to do better than these hard-coded names everywhere.
         config = self.logging_config
         # There is nothing to log if the solver returned without any iteration
         if config is not None and self._num_iter is not None:
             # Write the result file
             result_file = os.path.join(self._logging_dir, "results.csv")
+            # NOTE: the solution is not always what the objective was called with last
             self._create_result_df(
-                self._last_iter_dec_var, file_path=result_file, iter_num=self._num_iter,
+                solution / self._dec_var_scales,
+                file_path=result_file,
+                iter_num=self._num_iter,
             )
 
             # Combine the metrics history
-- 
2.43.0


From 11c2789c42166d7610375e8a3cbfcc084a2873ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:42 +0000
Subject: [PATCH 16/29] fix: logged mesh uses the scaled instead of the real
 mesh_scale

---
 lumos/optimal_control/scaled_mesh_ocp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index 530d912..d572267 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -1048,7 +1048,9 @@ class ScaledMeshOCP(CompositeProblem):
         # combine dfs
         result_df = pd.concat(df_list, axis=1)
         # add mesh
-        result_df["mesh"] = self._flat_normalized_mesh * self._get_mesh_scale(dec_var)
+        result_df["mesh"] = self._flat_normalized_mesh * self._get_mesh_scale(
+            unscaled_dec_var
+        )
         # add iteration number
         result_df["iter"] = iter_num
         logger.debug("Iteration result dataframe created")
-- 
2.43.0


From 2d6a69999b524a2bce913b45ff5cabbfb1c598a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:31 +0000
Subject: [PATCH 17/29] fix: a failed mapping of a casadi function leaves the
 wrong function in the cache

---
 lumos/numpy/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lumos/numpy/utils.py b/lumos/numpy/utils.py
index bf61f70..dbb4fe4 100644
--- a/lumos/numpy/utils.py
+++ b/lumos/numpy/utils.py
@@ -148,8 +148,11 @@ def cmap(
                 "Updating mapped function"
             )
             # update batch_size and re-create raw-mapped
-            fmapped.batch_size = batch
+            # NOTE: the batch size must only be set when the mapped function exists, as
+            # otherwise a failed mapping would leave us with the wrong function.
+            fmapped.batch_size = None
             fmapped.raw_mapped = fn.map(batch, "thread", num_workers)
+            fmapped.batch_size = batch
 
         # Since Casadi must map all inputs, so
         # for inputs that we don't want to map (in_axes=None), we need to tile.
-- 
2.43.0


From f4d88fd449778978f1769cba994ae468b729f861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:26 +0000
Subject: [PATCH 18/29] fix: models don't share array parameters with the trees
 they are given or return

---
 lumos/models/composition.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/lumos/models/composition.py b/lumos/models/composition.py
index 5e201f0..e55c613 100644
--- a/lumos/models/composition.py
+++ b/lumos/models/composition.py
@@ -1,6 +1,9 @@
 from __future__ import annotations  # Model referencing Model
 
 from typing import Any, Dict, List, Optional
+
+import numpy as np
+
 from lumos.models.tree_utils import ParameterTree, ConfigTree
 
 """ Summary notes
@@ -32,6 +35,14 @@ eg, the number of layers of a NN aero model, opt=True for tyre models etc.
 """
 
 
+def _copy_params(params: Dict[str, Any]) -> Dict[str, Any]:
+    """Copy the direct params of a model, including the (mutable) arrays in it.
+
+    Other values, eg: symbolic variables of the backends, are not copied.
+    """
+    return {k: v.copy() if isinstance(v, np.ndarray) else v for k, v in params.items()}
+
+
 class ModelMaker:
     _registry: Dict[str, type] = {}
 
@@ -210,7 +221,7 @@ class CompositeModel:
         # NOTE: for the direct data at top level, we must copy, as it is a 1 level dict,
         # which if we don't copy, then we'll be making the new ParameterTree a mutable
         # copy of the old params!
-        self._params = params.data.copy()
+        self._params = _copy_params(params.data)
 
         # The parameters of the children
         if not self.is_leaf():
@@ -223,7 +234,7 @@ class CompositeModel:
         # NOTE: for the direct data at top level, we must copy, as it is a 1 level dict,
         # which if we don't copy, then we'll be making the new ParameterTree a mutable
         # copy of the old params!
-        param_tree = ParameterTree(data=self._params.copy())
+        param_tree = ParameterTree(data=_copy_params(self._params))
         if not self.is_leaf():
             for n, m in self._submodels.items():
                 param_tree.add_child(name=n, subtree=m.get_recursive_params())
-- 
2.43.0


From eea2a9313694d5b686c9cf867f1cf01fbf30ab58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:27 +0000
Subject: [PATCH 19/29] fix: feasibility problems can be solved with the jax
 backend

---
 lumos/optimal_control/nlp.py             | 24 +++++++++++++-----------
 lumos/optimal_control/scaled_mesh_ocp.py |  2 ++
 2 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/lumos/optimal_control/nlp.py b/lumos/optimal_control/nlp.py
index 26a7af7..018e5d0 100644
--- a/lumos/optimal_control/nlp.py
+++ b/lumos/optimal_control/nlp.py
@@ -578,6 +578,18 @@ class NLPFunction(ABC):
 
         return default_options
 
+    def _ensure_objective(self):
+        """Define a constant objective if there is none (feasibility solve)"""
+        if not self._objectives:
+            const_obj = BaseObjective(
+                num_in=self.num_dec,
+                objective=lambda x: 0,
+                gradient=lambda x: np.zeros(self.num_dec),
+                hessian=lambda x: [],
+                hessian_structure=([], []),
+            )
+            self.add_objective("const_obj", const_obj)
+
     def solve(
         self,
         init_guess: Optional[lnp.ndarray] = None,
@@ -589,17 +601,7 @@ class NLPFunction(ABC):
         # Forget about the iterations of previous solves
         self._num_iter = None
 
-        # If the problem has no objectives defined (feasibility solve), define a
-        # constatn objective
-        if not self._objectives:
-            const_obj = BaseObjective(
-                num_in=self.num_dec,
-                objective=lambda x: 0,
-                gradient=lambda x: np.zeros(self.num_dec),
-                hessian=lambda x: [],
-                hessian_structure=([], []),
-            )
-            self.add_objective("const_obj", const_obj)
+        self._ensure_objective()
 
         ipopt_options = self._get_default_ipopt_options()
         ipopt_options.update(user_options)
diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index d572267..71618eb 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -205,6 +205,8 @@ class ScaledMeshOCP(CompositeProblem):
         # If jax backend, do one call to invoke jit first
         if self.backend == "jax":
             logger.info("Triggering jax JIT")
+            # the functions can't be called without any objective
+            self._ensure_objective()
             self.profile(x0, repeat=1, hessian=self.hessian_approximation == "exact")
             logger.info("Triggering jax JIT completed")
         # Then solve.
-- 
2.43.0


From 58bab69b5ffd5b9c8e4f06f00bade69a851eb760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:24 +0000
Subject: [PATCH 20/29] fix: the logging directory may contain special
 characters

---
 lumos/optimal_control/scaled_mesh_ocp.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index 71618eb..4dd3421 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -1,6 +1,5 @@
 from abc import abstractmethod
 from contextlib import contextmanager
-import glob
 import logging
 import os
 from datetime import datetime
@@ -857,9 +856,20 @@ class ScaledMeshOCP(CompositeProblem):
         """Remove what a previous (potentially failed) solve could have left behind."""
         if self.logging_config is not None:
             self._metrics_history_list = []
-            for file in glob.glob(os.path.join(self._logging_dir, "iter_*.csv")):
+            for file in self._get_iter_files():
                 os.remove(file)
 
+    def _get_iter_files(self) -> List[str]:
+        """Files of the iterations that are not combined yet"""
+        # NOTE: glob must not be used on the full path, as the name of the directory is
+        # chosen by the user and could contain special characters. And it also returns
+        # nothing when the directory can't be read.
+        return [
+            os.path.join(self._logging_dir, f)
+            for f in os.listdir(self._logging_dir)
+            if f.startswith("iter_") and f.endswith(".csv")
+        ]
+
     @property
     def logging_dir(self):
         return self._logging_dir
@@ -915,7 +925,7 @@ class ScaledMeshOCP(CompositeProblem):
                     os.remove(last_iter_file)
 
                 # Combine all iteration results
-                iter_files = glob.glob(os.path.join(self._logging_dir, "iter*.csv"))
+                iter_files = self._get_iter_files()
 
                 # Add result file to the file list to ensure we always see the last iter
                 iter_files.append(result_file)
-- 
2.43.0


From a8a385558ce7e90bb0736d68b60bd2f7c8836e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:53 +0000
Subject: [PATCH 21/29] fix: a problem keeps its own logging config and
 boundary conditions

---
 lumos/optimal_control/scaled_mesh_ocp.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index 4dd3421..d93b06e 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -1,5 +1,6 @@
 from abc import abstractmethod
 from contextlib import contextmanager
+from copy import copy
 import logging
 import os
 from datetime import datetime
@@ -115,7 +116,8 @@ class ScaledMeshOCP(CompositeProblem):
 
         self.set_normalized_mesh(sim_config.interval_points)
 
-        self.logging_config = sim_config.logging_config
+        # NOTE: copy, the config could be changed and used again for another problem
+        self.logging_config = copy(sim_config.logging_config)
 
         # Properties for logging
         self._logging_dir: str = None
@@ -764,7 +766,8 @@ class ScaledMeshOCP(CompositeProblem):
     ):
         """Store new boundary conditions to the problem. Will append instead of reset."""
         with self._restore_bounds_on_error():
-            self._boundary_conditions += tuple(boundary_conditions)
+            # NOTE: copy, as they are used again later and the caller could change them
+            self._boundary_conditions += tuple(copy(bc) for bc in boundary_conditions)
             self._apply_boundary_conditions()
 
     def _apply_boundary_conditions(self):
-- 
2.43.0


From cdff6b863fd2a17a1ae74f4fd06fbb93ec8579e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:53 +0000
Subject: [PATCH 22/29] fix: the names of a model don't change with the list
 given for the con_outputs

---
 lumos/models/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lumos/models/base.py b/lumos/models/base.py
index e2ed7ba..ae2df08 100644
--- a/lumos/models/base.py
+++ b/lumos/models/base.py
@@ -518,7 +518,8 @@ class StateSpaceModel(Model):
         """Set the con_outputs of the model."""
         # NOTE: names is a namedtuple, so it's immutable. Using the _replace method is
         # just a workaround to change a field.
-        self.names = self.names._replace(con_outputs=con_outputs)
+        # A list given by the caller could still be changed, so make a tuple of it.
+        self.names = self.names._replace(con_outputs=tuple(con_outputs))
 
     def _extract_residuals(self, outputs: Dict[str, Any]) -> Dict[str, Any]:
         return {c: outputs[c] for c in self.get_group_names("residuals")}
-- 
2.43.0


From 473c4d6d2594c6c1734ee78e80b6d9e892304ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:53 +0000
Subject: [PATCH 23/29] fix: default bounds, scales and boundary conditions are
 not shared between LTCConfigs

---
 lumos/simulations/laptime_simulation.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lumos/simulations/laptime_simulation.py b/lumos/simulations/laptime_simulation.py
index 09b8d7a..80dfead 100644
--- a/lumos/simulations/laptime_simulation.py
+++ b/lumos/simulations/laptime_simulation.py
@@ -110,11 +110,11 @@ class LTCConfig(SimConfig):
     # Overwrite the default factory to those specific to LTC
     # FIXME: default_factory only takes zero argument functions. So here we could end up
     # with a config that has is_cycli==False, but with the default for is_cyclic==True
-    boundary_conditions: Tuple[
-        BoundaryConditionConfig
-    ] = get_default_boundary_conditions()
-    bounds: Tuple[BoundConfig] = get_default_bounds()
-    scales: Tuple[ScaleConfig] = get_default_scales()
+    boundary_conditions: Tuple[BoundaryConditionConfig] = field(
+        default_factory=get_default_boundary_conditions
+    )
+    bounds: Tuple[BoundConfig] = field(default_factory=get_default_bounds)
+    scales: Tuple[ScaleConfig] = field(default_factory=get_default_scales)
     con_output_names: Tuple[str] = get_default_con_output_names()
 
     def __post_init__(self):
-- 
2.43.0


From 28dce3dafa48264062a6a53dc69830bbf6693a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:42 +0000
Subject: [PATCH 24/29] fix: a bound with a wrong size is refused without
 changing the other bound

---
 lumos/optimal_control/scaled_mesh_ocp.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index d93b06e..dc571b6 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -802,8 +802,10 @@ class ScaledMeshOCP(CompositeProblem):
 
         assert np.all(lb <= ub), "lower bound must be no larger than the upper bound"
 
-        self.lb[idx_var] = lb
-        self.ub[idx_var] = ub
+        # NOTE: one of them could be invalid only when it is set, eg: a wrong size
+        with self._restore_bounds_on_error():
+            self.lb[idx_var] = lb
+            self.ub[idx_var] = ub
 
     # TODO: maybe this can be done with just a 'partial'?
     def set_state_bounds(
-- 
2.43.0


From 8f918d78c849eaab3218e0cc454a19dab24bd5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:31 +0000
Subject: [PATCH 25/29] fix: a parameter tree that misfits a model is refused
 before any parameter changes

---
 lumos/models/composition.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/lumos/models/composition.py b/lumos/models/composition.py
index e55c613..8b6c253 100644
--- a/lumos/models/composition.py
+++ b/lumos/models/composition.py
@@ -215,18 +215,29 @@ class CompositeModel:
         return param_tree
 
     def set_recursive_params(self, params: ParameterTree):
-        """Set the parameteres recursively including the children"""
+        """Set the parameteres recursively including the children
+
+        A tree that doesn't match the structure of the model is refused before any
+        parameter is changed.
+        """
+        for model, direct_params in self._match_params(params):
+            model._params = direct_params
+
+    def _match_params(self, params: ParameterTree):
+        """Return all models in the model tree together with their new direct params"""
 
         # The direct parameters of the model
         # NOTE: for the direct data at top level, we must copy, as it is a 1 level dict,
         # which if we don't copy, then we'll be making the new ParameterTree a mutable
         # copy of the old params!
-        self._params = _copy_params(params.data)
+        matched = [(self, _copy_params(params.data))]
 
         # The parameters of the children
         if not self.is_leaf():
             for name, model in self._submodels.items():
-                model.set_recursive_params(params.get_child(name))
+                matched += model._match_params(params.get_child(name))
+
+        return matched
 
     def get_recursive_params(self) -> ParameterTree:
         """Assmeble the parameter tree including the children"""
-- 
2.43.0


From 1462f6b7186d994ebd676ef0c6a3fe85bcf00cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:31 +0000
Subject: [PATCH 26/29] fix: models without states can be called with
 parameters and arrays

---
 lumos/models/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumos/models/base.py b/lumos/models/base.py
index ae2df08..1d273aa 100644
--- a/lumos/models/base.py
+++ b/lumos/models/base.py
@@ -178,7 +178,7 @@ class Model(CompositeModel):
 
     def apply_and_forward_with_arrays(self, inputs, params):
         self.set_recursive_params(params)
-        return self.forward_with_array(inputs)
+        return self.forward_with_arrays(inputs)
 
     def _construct_io_names(self):
         """Create model io names while also taking into account submodels compositoin"""
-- 
2.43.0


From 7a814b8b07ca9e13f8a7216e7bae636b15c09daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:31 +0000
Subject: [PATCH 27/29] fix: an incomplete export of c code is reported

---
 lumos/models/base.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/lumos/models/base.py b/lumos/models/base.py
index 1d273aa..1c86795 100644
--- a/lumos/models/base.py
+++ b/lumos/models/base.py
@@ -5,7 +5,7 @@ from abc import abstractmethod
 from collections import namedtuple
 from contextlib import contextmanager
 from functools import wraps
-from os import replace
+from os import listdir, replace
 from os.path import exists, join
 from tempfile import TemporaryDirectory
 from typing import Any, Dict, List, NamedTuple, Optional, Tuple
@@ -985,7 +985,18 @@ class StateSpaceModel(Model):
             for inc in includes:
                 codegen.add_include(inc)
 
-        codegen.generate()
+        # NOTE: casadi doesn't report when a file could not be written (completely), so
+        # generate in a private directory and only move complete files to their final name.
+        with TemporaryDirectory(prefix=cfile + "_", dir=".") as tmp_dir:
+            with open(codegen.generate(join(tmp_dir, ""))) as f:
+                exported_code = f.read()
+            code = codegen.dump()
+            if code not in exported_code or not exported_code.endswith(
+                ("#endif\n", code)
+            ):
+                raise RuntimeError(f"failed to export the complete code to {cfile}")
+            for name in listdir(tmp_dir):
+                replace(join(tmp_dir, name), name)
 
         # Need to set the parameters back to the original params, as they were replaced
         # with casadi variables during the apply_and_forward_with_arrays
-- 
2.43.0


From 61720107827239a97e0d428605b116286063a227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:04 +0000
Subject: [PATCH 28/29] fix: exports into any file name with casadi's rule for
 prefixes

---
 lumos/models/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumos/models/base.py b/lumos/models/base.py
index 1c86795..e893494 100644
--- a/lumos/models/base.py
+++ b/lumos/models/base.py
@@ -987,7 +987,7 @@ class StateSpaceModel(Model):
 
         # NOTE: casadi doesn't report when a file could not be written (completely), so
         # generate in a private directory and only move complete files to their final name.
-        with TemporaryDirectory(prefix=cfile + "_", dir=".") as tmp_dir:
+        with TemporaryDirectory(prefix="export_", dir=".") as tmp_dir:
             with open(codegen.generate(join(tmp_dir, ""))) as f:
                 exported_code = f.read()
             code = codegen.dump()
-- 
2.43.0


From 527bdd875e88ed86842d0cf2dc2e6bb5bc9674a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:41 +0000
Subject: [PATCH 29/29] fix: outputs of ConstAero don't share the parameters of
 the model

---
 lumos/models/aero/aero.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumos/models/aero/aero.py b/lumos/models/aero/aero.py
index a1fa7bb..ee05482 100644
--- a/lumos/models/aero/aero.py
+++ b/lumos/models/aero/aero.py
@@ -22,7 +22,7 @@ class ConstAero(AeroModel):
         return {"Cx": 0.6, "Cy": 0.0, "Cz": 1.9}
 
     def forward(self, inputs):
-        return ModelReturn(outputs=self._params)
+        return ModelReturn(outputs=dict(self._params))
 
 
 class GPAero(AeroModel):
-- 
2.43.0

