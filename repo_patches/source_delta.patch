From 1dc755895da8fd65c0e297f7155fbd3b231d7c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:10 +0000
Subject: [PATCH 01/36] fix: condensed hessian structure uses the removed
 np.int alias

---
 lumos/optimal_control/scaled_mesh_ocp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index 31c2849..60b9963 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -463,7 +463,7 @@ class ScaledMeshOCP(CompositeProblem):
             # If mesh_scale is a variable, then the continuity constraints also has
             # non-zero hessian entries.
             cont_rows = np.arange(self.num_dec)
-            cont_cols = np.ones(self.num_dec, dtype=np.int) * (self.num_dec - 1)
+            cont_cols = np.ones(self.num_dec, dtype=int) * (self.num_dec - 1)
             rows = np.hstack([rows.ravel(), cont_rows])
             cols = np.hstack([cols.ravel(), cont_cols])
 
-- 
2.43.0


From c284a8b89ad0e24c1d5753a5c1a010d461f3b6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:10 +0000
Subject: [PATCH 02/36] fix: batched forward of the custom backend called the
 dict API with arrays

---
 lumos/models/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lumos/models/base.py b/lumos/models/base.py
index cd8518e..771f9e1 100644
--- a/lumos/models/base.py
+++ b/lumos/models/base.py
@@ -769,8 +769,9 @@ class StateSpaceModel(Model):
         )
 
         def custom_batched_forward(_states, _inputs, _mesh, _params):
-            self.set_recursive_params(_params)
-            out = lnp.lmap(self.forward)(_states, _inputs, _mesh)
+            out = lnp.lmap(
+                self.apply_and_forward_with_arrays, in_axes=[0, 0, 0, None]
+            )(_states, _inputs, _mesh, _params)
             return StateSpaceModelReturn(*out)
 
         self._batched_forward = custom_batched_forward
-- 
2.43.0


From 26473e6182239872323b8e5d73ae2c52420f7125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:10 +0000
Subject: [PATCH 03/36] fix: changing model parameters of a condensed problem

---
 lumos/optimal_control/scaled_mesh_ocp.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index 60b9963..3c2285b 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -162,7 +162,11 @@ class ScaledMeshOCP(CompositeProblem):
         # need the parameters (and we put all model-related computation there)
         # We could make the entire 'CompositeProblem' parameterized, but that might
         # be an over-complication.
-        self._constraints["model_algebra"].set_params(model_params)
+        if self.is_condensed:
+            model_algebra = self._con_storage["model_algebra"]
+        else:
+            model_algebra = self._constraints["model_algebra"]
+        model_algebra.set_params(model_params)
 
     def modify_model_param(self, path, value):
         self._params.set_param(path, value)
-- 
2.43.0


From ee4e943c9b255160309d7d0675716979da468432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:10 +0000
Subject: [PATCH 04/36] fix: condensed problem modified the bounds of the
 config it was given

---
 lumos/optimal_control/scaled_mesh_ocp.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index 3c2285b..5fc881c 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -133,12 +133,14 @@ class ScaledMeshOCP(CompositeProblem):
             self._build_condensed_model_algebra()
             # The states_dot decision variables are un-used, so we set it to
             # 0, and IPOPT will take them out of the NLP depending the settings.
-            sim_config.bounds += tuple(
+            bounds = sim_config.bounds + tuple(
                 BoundConfig("states_dot", n, (0, 0))
                 for n in self.model.get_group_names("states_dot")
             )
+        else:
+            bounds = sim_config.bounds
 
-        self.update_bounds(sim_config.bounds)
+        self.update_bounds(bounds)
 
         # Set specific boundary conditions of variables at certain stages
         self.update_boundary_conditions(sim_config.boundary_conditions)
-- 
2.43.0


From 091e22cfa189dc92fc3b6fbd3af7326cee2657a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:10 +0000
Subject: [PATCH 05/36] fix: logged mesh used the scaled decision variable

---
 lumos/optimal_control/scaled_mesh_ocp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index 5fc881c..68e7fa3 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -995,7 +995,9 @@ class ScaledMeshOCP(CompositeProblem):
         # combine dfs
         result_df = pd.concat(df_list, axis=1)
         # add mesh
-        result_df["mesh"] = self._flat_normalized_mesh * self._get_mesh_scale(dec_var)
+        result_df["mesh"] = self._flat_normalized_mesh * self._get_mesh_scale(
+            unscaled_dec_var
+        )
         # add iteration number
         result_df["iter"] = iter_num
         logger.debug("Iteration result dataframe created")
-- 
2.43.0


From ef26e2e50e42d3c8806bad37b24fba7b5e4e69eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:10 +0000
Subject: [PATCH 06/36] fix: stale hessian triangle index after adding or
 deleting a constraint or objective

---
 lumos/optimal_control/nlp.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lumos/optimal_control/nlp.py b/lumos/optimal_control/nlp.py
index 81ab86f..7cfb4c1 100644
--- a/lumos/optimal_control/nlp.py
+++ b/lumos/optimal_control/nlp.py
@@ -717,10 +717,12 @@ class CompositeProblem(NLPFunction):
         # Update the input scales using the nlp's dec_var_scales
         c.set_input_scales(self._dec_var_scales)
         self._constraints.update({name: c})
+        self._idx_triu = None
 
     def delete_constraints(self, name: str):
         # FIXME: add checks
         self._constraints.pop(name)
+        self._idx_triu = None
 
     def add_objective(self, name: str, o: BaseObjective):
         """Add an objecitve function to the problem.
@@ -742,9 +744,11 @@ class CompositeProblem(NLPFunction):
         # decision variable scale
         o.set_input_scales(self._dec_var_scales)
         self._objectives.update({name: o})
+        self._idx_triu = None
 
     def delete_objective(self, name: str):
         self._objectives.pop(name)
+        self._idx_triu = None
 
 
     def _compute_objective(self, x):
-- 
2.43.0


From 855c7f08c699d5eccb89694e490b489625cd2bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:10 +0000
Subject: [PATCH 07/36] fix: empty hessian structures turned the index arrays
 of the whole problem into floats

---
 lumos/optimal_control/model_solver.py | 2 +-
 lumos/optimal_control/nlp.py          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lumos/optimal_control/model_solver.py b/lumos/optimal_control/model_solver.py
index d620c36..a660bdd 100644
--- a/lumos/optimal_control/model_solver.py
+++ b/lumos/optimal_control/model_solver.py
@@ -252,7 +252,7 @@ class ModelSolver(CompositeProblem):
                 "objective": obj,
                 "gradient": gradient,
                 "hessian": hessian,
-                "hessian_structure": ([], []),
+                "hessian_structure": (np.array([], dtype=int), np.array([], dtype=int)),
             }
 
         obj_name = f"{group}.{name}.weight={weight}"
diff --git a/lumos/optimal_control/nlp.py b/lumos/optimal_control/nlp.py
index 7cfb4c1..6f0a388 100644
--- a/lumos/optimal_control/nlp.py
+++ b/lumos/optimal_control/nlp.py
@@ -594,7 +594,7 @@ class NLPFunction(ABC):
                 objective=lambda x: 0,
                 gradient=lambda x: np.zeros(self.num_dec),
                 hessian=lambda x: [],
-                hessian_structure=([], []),
+                hessian_structure=(np.array([], dtype=int), np.array([], dtype=int)),
             )
             self.add_objective("const_obj", const_obj)
 
-- 
2.43.0


From a0c6c94dd308a1aaf4842345b73ed2f64b9bdabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:10 +0000
Subject: [PATCH 08/36] fix: model solver looked up the hessian under a key
 that does not exist

---
 lumos/optimal_control/model_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumos/optimal_control/model_solver.py b/lumos/optimal_control/model_solver.py
index a660bdd..29dc6fc 100644
--- a/lumos/optimal_control/model_solver.py
+++ b/lumos/optimal_control/model_solver.py
@@ -52,7 +52,7 @@ class ModelSolver(CompositeProblem):
             return np.array(implicit_functions["jacobian"](*args).nonzeros())
 
         def _hessian(*args):
-            return np.array(implicit_functions["_hessian"](*args).nonzeros())
+            return np.array(implicit_functions["hessian"](*args).nonzeros())
 
         # FIXME: we create CasMappedConstraints (839 in base.py), but it actually is NOT
         # a Constriant that can be executed with its .constraints method, as it requires
-- 
2.43.0


From daf87c1b57b7f60c9e08bfa52063aadcf4b79d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:10 +0000
Subject: [PATCH 09/36] fix: use_backend restored the backend of its
 construction instead of its entry

---
 lumos/numpy/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lumos/numpy/utils.py b/lumos/numpy/utils.py
index 7041ab7..ae688e8 100644
--- a/lumos/numpy/utils.py
+++ b/lumos/numpy/utils.py
@@ -13,14 +13,15 @@ logger = logging.getLogger(__name__)
 
 class use_backend(ContextDecorator):
     def __init__(self, backend: str):
-        self._original_backend = lnp.get_backend()
+        self._original_backends = []
         self._target_backend = backend
 
     def __enter__(self):
+        self._original_backends.append(lnp.get_backend())
         lnp.set_backend(self._target_backend)
 
     def __exit__(self, *exc):
-        lnp.set_backend(self._original_backend)
+        lnp.set_backend(self._original_backends.pop())
 
 
 def is_jax_array(x: Any) -> bool:
-- 
2.43.0


From b4ac47b571da812cf554250364c700b751fec542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:10 +0000
Subject: [PATCH 10/36] fix: lmap and cmap took the batch size from an argument
 that is not mapped

---
 lumos/numpy/utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lumos/numpy/utils.py b/lumos/numpy/utils.py
index ae688e8..378f2bd 100644
--- a/lumos/numpy/utils.py
+++ b/lumos/numpy/utils.py
@@ -127,7 +127,9 @@ def cmap(
             full_in_axes = [in_axes] * len(args)
 
         # First find an argument that needs to be mapped
-        sample_arg = next(a for a in args if a is not None)
+        sample_arg = next(
+            a for a, map_axis in zip(args, full_in_axes) if map_axis is not None
+        )
         batch = sample_arg.shape[0]
 
         # NOTE: Creating the mapped function costs quite a bit of overhead. Therefore we
@@ -224,7 +226,9 @@ def lmap(
             full_in_axes = [in_axes] * len(args)
 
         # First find an argument that needs to be mapped
-        sample_arg = next(a for a in args if a is not None)
+        sample_arg = next(
+            a for a, map_axis in zip(args, full_in_axes) if map_axis is not None
+        )
         batch_size = sample_arg.shape[0]
 
         out_array = []
-- 
2.43.0


From f0c3a6d8397f678c655e0ad05f61c54ea7c5a544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:11 +0000
Subject: [PATCH 11/36] fix: tree paths with a delimiter other than a dot

---
 lumos/models/tree_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lumos/models/tree_utils.py b/lumos/models/tree_utils.py
index 932729e..ee9a235 100644
--- a/lumos/models/tree_utils.py
+++ b/lumos/models/tree_utils.py
@@ -98,7 +98,7 @@ class Tree:
             subtree._data = value
         elif self._data_type == dict:
             *path_names, param_key = path.split(delimiter)
-            subtree = self._get_subtree(delimiter.join(path_names))
+            subtree = self._get_subtree(delimiter.join(path_names), delimiter)
             subtree._data[param_key] = value
         else:
             raise TypeError("Only str and dict supported for Tree at the moment")
@@ -111,7 +111,7 @@ class Tree:
             )
         *path_to_parent, child_name = path.split(delimiter)
         path_to_parent = delimiter.join(path_to_parent)
-        parent = self._get_subtree(path_to_parent)
+        parent = self._get_subtree(path_to_parent, delimiter)
 
         # Ensure the child to be replaced does actually exist
         if child_name in parent._children:
@@ -173,7 +173,7 @@ class ParameterTree(Tree):
 
     def get_param(self, path, delimiter="."):
         *path_names, param_key = path.split(delimiter)
-        t = self._get_subtree(delimiter.join(path_names))
+        t = self._get_subtree(delimiter.join(path_names), delimiter)
         return t._data[param_key]
 
     def set_param(self, path, value, delimiter="."):
-- 
2.43.0


From abc1c9a339635a33e7f8c8ae8a885fb4c897f2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:11 +0000
Subject: [PATCH 12/36] fix: apply_and_forward_with_arrays of a stateless model

---
 lumos/models/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumos/models/base.py b/lumos/models/base.py
index 771f9e1..29c6153 100644
--- a/lumos/models/base.py
+++ b/lumos/models/base.py
@@ -151,7 +151,7 @@ class Model(CompositeModel):
 
     def apply_and_forward_with_arrays(self, inputs, params):
         self.set_recursive_params(params)
-        return self.forward_with_array(inputs)
+        return self.forward_with_arrays(inputs)
 
     def _construct_io_names(self):
         """Create model io names while also taking into account submodels compositoin"""
-- 
2.43.0


From 6051b102d11421f66a304925458028a66556039c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:11 +0000
Subject: [PATCH 13/36] fix: logging config stayed a dictionary when a config
 was rebuilt from its dictionary

---
 lumos/optimal_control/config.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lumos/optimal_control/config.py b/lumos/optimal_control/config.py
index 85c33b5..4bab520 100644
--- a/lumos/optimal_control/config.py
+++ b/lumos/optimal_control/config.py
@@ -156,6 +156,9 @@ class SimConfig:
                 BoundaryConditionConfig(**d) for d in self.boundary_conditions
             )
 
+        if isinstance(self.logging_config, dict):
+            self.logging_config = LoggingConfig(**self.logging_config)
+
     def to_dict(self) -> Dict[str, Any]:
         """Convert a nested config to a dictionary."""
         return asdict(self)
-- 
2.43.0


From c15dc4c311afd729973f1d04a08fcef35503804e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:42 +0000
Subject: [PATCH 14/36] fix: matrix parameters were transposed in memory order
 for the casadi backend, one-element arrays became scalars

---
 lumos/models/tree_utils.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lumos/models/tree_utils.py b/lumos/models/tree_utils.py
index ee9a235..e331158 100644
--- a/lumos/models/tree_utils.py
+++ b/lumos/models/tree_utils.py
@@ -251,11 +251,20 @@ def _size_and_shape(x):
 
 def _ravel(x):
     if _is_casadi_instance(x):
-        return x.reshape((x.numel(), 1))
+        # casadi is column major, so transpose first to ravel in the order of numpy
+        return x.T.reshape((x.numel(), 1))
     else:
         return np.ravel(x)
 
 
+def _reshape(x, shape):
+    if _is_casadi_instance(x):
+        # casadi is column major, the flat parameters are in the (row major) numpy order
+        return x.reshape((shape[1], shape[0])).T
+    else:
+        return x.reshape(shape)
+
+
 def _split(arr, indices):
     if _is_casadi_instance(arr):
         indices = [0, *indices, arr.numel()]
@@ -307,7 +316,7 @@ def _ravel_flat_dict(flat_tree):
             new_shapes = shapes
 
         reconstructed_values = [
-            chunk.reshape(shape) if _size(chunk) > 1 else chunk[0]
+            _reshape(chunk, shape) if shape else chunk[0]
             for chunk, shape in zip(chunks, new_shapes)
         ]
         return dict(zip(keys, reconstructed_values))
-- 
2.43.0


From 7bf51c0479be07224141e2ee9ff39a70749cf612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:41 +0000
Subject: [PATCH 15/36] fix: a mesh set after construction did not reach the
 model algebra of the problem

---
 lumos/optimal_control/convolution.py     |  3 +++
 lumos/optimal_control/scaled_mesh_ocp.py | 15 ++++++++++++---
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/lumos/optimal_control/convolution.py b/lumos/optimal_control/convolution.py
index 8e11a9e..7030e83 100644
--- a/lumos/optimal_control/convolution.py
+++ b/lumos/optimal_control/convolution.py
@@ -111,6 +111,9 @@ class ConvConstraints(MappedConstraints):
         else:
             self._params = params
 
+    def set_normalized_mesh(self, normalized_mesh: np.ndarray):
+        self._normalized_mesh = normalized_mesh
+
     def _transform_inputs(self, x):
         stage_vars, _ = self._op.split_stage_and_global_vars(x)
 
diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index 68e7fa3..0a3c6b2 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -164,11 +164,14 @@ class ScaledMeshOCP(CompositeProblem):
         # need the parameters (and we put all model-related computation there)
         # We could make the entire 'CompositeProblem' parameterized, but that might
         # be an over-complication.
+        self._get_stage_model_algebra().set_params(model_params)
+
+    def _get_stage_model_algebra(self) -> ConvConstraints:
+        """Return the model algebra constraints defined stage by stage"""
         if self.is_condensed:
-            model_algebra = self._con_storage["model_algebra"]
+            return self._con_storage["model_algebra"]
         else:
-            model_algebra = self._constraints["model_algebra"]
-        model_algebra.set_params(model_params)
+            return self._constraints["model_algebra"]
 
     def modify_model_param(self, path, value):
         self._params.set_param(path, value)
@@ -533,6 +536,12 @@ class ScaledMeshOCP(CompositeProblem):
 
             self._normalized_interval_mesh.append(current_interval_mesh)
 
+        # If the problem is already built, its model algebra must see the new mesh as well
+        if hasattr(self, "_constraints"):
+            self._get_stage_model_algebra().set_normalized_mesh(
+                self._flat_normalized_mesh
+            )
+
     @property
     def _flat_normalized_mesh(self) -> np.ndarray:
         # Stack all interval mesh togther, omitting the overlapping stage.
-- 
2.43.0


From e5801b1de0007faa512cb33206dd9c9267eb4ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:55 +0000
Subject: [PATCH 16/36] fix: jax functions leave the model's parameters as they
 were

---
 lumos/models/base.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/lumos/models/base.py b/lumos/models/base.py
index 29c6153..ed0c77d 100644
--- a/lumos/models/base.py
+++ b/lumos/models/base.py
@@ -730,10 +730,22 @@ class StateSpaceModel(Model):
         return rows[keep], cols[keep]
 
     def _make_jax_model_algebra_cons(self):
+        def restore_params(fn):
+            # jax traces lazily, on the first call of the functions made here, which
+            # would replace the model params with tracers that are dead afterwards.
+            def wrapped(*args):
+                params = self.get_recursive_params()
+                try:
+                    return fn(*args)
+                finally:
+                    self.set_recursive_params(params)
+
+            return wrapped
+
         # For jax, we rely on jac and hessian to compute the constraints at a later
         # stage. See JaxMappedConstraints
         implicit_functions = {
-            "constraints": self._apply_and_flat_implicit,
+            "constraints": restore_params(self._apply_and_flat_implicit),
         }
 
         # TODO: _stage_hessianstructure not yet implemented
@@ -747,7 +759,12 @@ class StateSpaceModel(Model):
 
         # FIXME: handle batched_forward better
         self._batched_forward = lnp.use_backend("jax")(
-            jit(vmap(self.apply_and_forward_with_arrays, in_axes=[0, 0, 0, None]))
+            jit(
+                vmap(
+                    restore_params(self.apply_and_forward_with_arrays),
+                    in_axes=[0, 0, 0, None],
+                )
+            )
         )
 
         # FIXME: here the implicit functions are incomplete
-- 
2.43.0


From 31de97f127440ff5ea7f549902f8ab8c0b0cf786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:00 +0000
Subject: [PATCH 17/36] fix: casadi diff ignored n and took a matrix along the
 wrong axis

---
 lumos/numpy/casadi_numpy/calculus.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lumos/numpy/casadi_numpy/calculus.py b/lumos/numpy/casadi_numpy/calculus.py
index 3b9d0da..bd0f85a 100644
--- a/lumos/numpy/casadi_numpy/calculus.py
+++ b/lumos/numpy/casadi_numpy/calculus.py
@@ -18,10 +18,9 @@ def diff(a, n=1, axis=-1):
                 "This could be implemented, but haven't had the need yet."
             )
 
-        result = a
-        for i in range(n):
-            result = _cas.diff(a)
-        return result
+        # a column stands for a 1d array, otherwise the last axis is that of the columns
+        cas_axis = 0 if a.shape[1] == 1 else 1
+        return _cas.diff(a, n, cas_axis) if n > 0 else a
 
 
 def trapz(x, modify_endpoints=False):  # TODO unify with NumPy trapz, this is different
-- 
2.43.0


From d0a20615b5ee96ce7fc97d7e0dec145651cd5160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:00 +0000
Subject: [PATCH 18/36] fix: casadi roll dropped or reordered elements for
 shifts other than one and for matrices

---
 lumos/numpy/casadi_numpy/array.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/lumos/numpy/casadi_numpy/array.py b/lumos/numpy/casadi_numpy/array.py
index f8a0362..646dfa0 100644
--- a/lumos/numpy/casadi_numpy/array.py
+++ b/lumos/numpy/casadi_numpy/array.py
@@ -244,16 +244,19 @@ def roll(a, shift, axis: int = None):
     """
     if not is_casadi_type(a):
         return _onp.roll(a, shift, axis=axis)
-    else:  # TODO add some checking to make sure shift < len(a), or shift is modulo'd down by len(a).
-        # assert shift < a.shape[axis]
-        if 1 in a.shape and axis == 0:
-            return _cas.vertcat(a[-shift, :], a[:-shift, :])
-        elif axis == 0:
-            return _cas.vertcat(a.T[:, -shift], a.T[:, :-shift]).T
+    else:
+        if axis == 0:
+            split = a.shape[0] - shift % a.shape[0]
+            return _cas.vertcat(a[split:, :], a[:split, :])
         elif axis == 1:
-            return _cas.horzcat(a[:, -shift], a[:, :-shift])
-        elif axis is None:
+            split = a.shape[1] - shift % a.shape[1]
+            return _cas.horzcat(a[:, split:], a[:, :split])
+        elif axis is None and 1 in a.shape:
             return roll(a, shift=shift, axis=0)
+        elif axis is None:
+            # as numpy: roll the flattened (row-major) array
+            flat = roll(_cas.vec(a.T), shift=shift, axis=0)
+            return _cas.reshape(flat, a.shape[1], a.shape[0]).T
         else:
             raise Exception(
                 "CasADi types can only be up to 2D, so `axis` must be None, 0, or 1."
-- 
2.43.0


From 40fc4187f5f6a338a75026bc5cb1f101e425ae61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:00 +0000
Subject: [PATCH 19/36] fix: casadi mean of a matrix was not a scalar

---
 lumos/numpy/casadi_numpy/arithmetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumos/numpy/casadi_numpy/arithmetic.py b/lumos/numpy/casadi_numpy/arithmetic.py
index 316aca6..9e976e1 100644
--- a/lumos/numpy/casadi_numpy/arithmetic.py
+++ b/lumos/numpy/casadi_numpy/arithmetic.py
@@ -41,7 +41,7 @@ def mean(x, axis: int = None):
         elif axis == 1:
             return sum(x, axis=1) / x.shape[1]
         elif axis is None:
-            return mean(mean(x, axis=0), axis=1)
+            return sum(x) / (x.shape[0] * x.shape[1])
         else:
             raise ValueError(
                 "CasADi types can only be up to 2D, so `axis` must be None, 0, or 1."
-- 
2.43.0


From ad3d57be6d35181aad3d827ee00c938269503f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:00 +0000
Subject: [PATCH 20/36] fix: casadi reshape used column-major order

---
 lumos/numpy/casadi_numpy/array.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lumos/numpy/casadi_numpy/array.py b/lumos/numpy/casadi_numpy/array.py
index 646dfa0..9c184ae 100644
--- a/lumos/numpy/casadi_numpy/array.py
+++ b/lumos/numpy/casadi_numpy/array.py
@@ -291,7 +291,8 @@ def reshape(a, newshape):
     if not is_casadi_type(a):
         return _onp.reshape(a, newshape)
     else:
-        return _cas.reshape(a, newshape)
+        # casadi is column major, numpy row major
+        return _cas.reshape(a.T, newshape[::-1]).T
 
 
 def zeros(shape):
-- 
2.43.0


From fb07c900bfff55df5a5bd75ccdd434ad698a681d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:00 +0000
Subject: [PATCH 21/36] fix: casadi geomspace was linearly spaced and refused
 symbolic ends

---
 lumos/numpy/casadi_numpy/spacing.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lumos/numpy/casadi_numpy/spacing.py b/lumos/numpy/casadi_numpy/spacing.py
index 6ac2ce8..83f9e7f 100644
--- a/lumos/numpy/casadi_numpy/spacing.py
+++ b/lumos/numpy/casadi_numpy/spacing.py
@@ -56,6 +56,8 @@ def geomspace(start: float = 1.0, stop: float = 10.0, num: int = 50):
     if not is_casadi_type([start, stop, num], recursive=True):
         return _onp.geomspace(start, stop, num)
     else:
-        if start <= 0 or stop <= 0:
-            raise ValueError("Both start and stop must be positive!")
-        return _onp.log10(10 ** linspace(start, stop, num))
+        for v in (start, stop):
+            v = _cas.SX(v) if not isinstance(v, _cas.MX) else v
+            if v.is_constant() and float(_cas.DM(v) if isinstance(v, _cas.SX) else v.to_DM()) <= 0:
+                raise ValueError("Both start and stop must be positive!")
+        return 10 ** linspace(_onp.log10(start), _onp.log10(stop), num)
-- 
2.43.0


From 7ca3eb1b0ecf2a3f060e320af1b9c20cf70762c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:00 +0000
Subject: [PATCH 22/36] fix: casadi norm failed for orders other than 1 and 2
 and returned an elementwise sum for matrix norms

---
 lumos/numpy/casadi_numpy/linalg.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/lumos/numpy/casadi_numpy/linalg.py b/lumos/numpy/casadi_numpy/linalg.py
index 92163d0..1fb9c0c 100644
--- a/lumos/numpy/casadi_numpy/linalg.py
+++ b/lumos/numpy/casadi_numpy/linalg.py
@@ -69,11 +69,18 @@ def norm(x, ord=None, axis=None):
         elif x.shape[1] == 1:
             axis = 0
 
+        if axis == -1:
+            axis = 0 if x.shape[1] == 1 else 1
+
         if ord is None:
             if axis is not None:
                 ord = 2
             else:
                 ord = "fro"
+        elif axis is None and ord != "fro":
+            raise NotImplementedError(
+                "Only the Frobenius norm of a matrix is implemented for CasADi types."
+            )
 
         if ord == 1:
             # return _cas.norm_1(x)
@@ -83,8 +90,12 @@ def norm(x, ord=None, axis=None):
             return sum(x ** 2, axis=axis) ** 0.5
         elif ord == "fro":
             return _cas.norm_fro(x)
-        elif np.isinf(ord):
-            return _cas.norm_inf()
+        elif _onp.isinf(ord) and ord > 0:
+            if axis == 0:
+                return _cas.vertcat(*[_cas.mmax(abs(c)) for c in _cas.horzsplit(x)])
+            return _cas.vertcat(*[_cas.mmax(abs(r)) for r in _cas.vertsplit(x)])
+        elif ord <= 0:
+            raise NotImplementedError("Only positive orders are implemented for CasADi types.")
         else:
             try:
                 return sum(abs(x) ** ord, axis=axis) ** (1 / ord)
-- 
2.43.0


From 3ea43f160a07141af8bfcb7a2b3dd7dc31d10450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:00 +0000
Subject: [PATCH 23/36] fix: casadi dot and inner of matrices returned the sum
 of the elementwise product

---
 lumos/numpy/casadi_numpy/linalg.py           | 3 +++
 lumos/numpy/casadi_numpy/linalg_top_level.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/lumos/numpy/casadi_numpy/linalg.py b/lumos/numpy/casadi_numpy/linalg.py
index 1fb9c0c..5244928 100644
--- a/lumos/numpy/casadi_numpy/linalg.py
+++ b/lumos/numpy/casadi_numpy/linalg.py
@@ -14,6 +14,9 @@ def inner(x, y):
         return _onp.inner(x, y)
 
     else:
+        if len(x.shape) == 2 and x.shape[1] > 1 or len(y.shape) == 2 and y.shape[1] > 1:
+            # as numpy: sum over the last axes unless both are vectors
+            raise NotImplementedError("Only the inner product of vectors is implemented.")
         return _cas.dot(x, y)
 
 
diff --git a/lumos/numpy/casadi_numpy/linalg_top_level.py b/lumos/numpy/casadi_numpy/linalg_top_level.py
index 834b9d5..85e8224 100644
--- a/lumos/numpy/casadi_numpy/linalg_top_level.py
+++ b/lumos/numpy/casadi_numpy/linalg_top_level.py
@@ -14,6 +14,9 @@ def dot(a, b):
         return _onp.dot(a, b)
 
     else:
+        if len(b.shape) == 2 and b.shape[1] > 1 or len(a.shape) == 2 and a.shape[1] > 1:
+            # as numpy: matrix product unless both are vectors
+            return _cas.mtimes(a, b)
         return _cas.dot(a, b)
 
 
-- 
2.43.0


From 42206870cf026dd1c90c6624ee39d4a7bacabdef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:00 +0000
Subject: [PATCH 24/36] fix: finite_difference_coefficients returned its errors

---
 lumos/numpy/casadi_numpy/finite_difference_operators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lumos/numpy/casadi_numpy/finite_difference_operators.py b/lumos/numpy/casadi_numpy/finite_difference_operators.py
index bacdc13..3a9a507 100644
--- a/lumos/numpy/casadi_numpy/finite_difference_operators.py
+++ b/lumos/numpy/casadi_numpy/finite_difference_operators.py
@@ -51,10 +51,10 @@ def finite_difference_coefficients(
     """
     ### Check inputs
     if derivative_degree < 1:
-        return ValueError("The parameter derivative_degree must be an integer >= 1.")
+        raise ValueError("The parameter derivative_degree must be an integer >= 1.")
     expected_order_of_accuracy = length(x) - derivative_degree
     if expected_order_of_accuracy < 1:
-        return ValueError(
+        raise ValueError(
             "You need to provide at least (derivative_degree+1) grid points in the x vector."
         )
 
-- 
2.43.0


From 5cb62e6ca1250af554cab763b0289e8332c8acfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:00 +0000
Subject: [PATCH 25/36] fix: casadi array of vectors was their concatenation

---
 lumos/numpy/casadi_numpy/array.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lumos/numpy/casadi_numpy/array.py b/lumos/numpy/casadi_numpy/array.py
index 9c184ae..4b9e831 100644
--- a/lumos/numpy/casadi_numpy/array.py
+++ b/lumos/numpy/casadi_numpy/array.py
@@ -25,6 +25,8 @@ def array(array_like, dtype=None):
     else:
         # Handles inputs like [[opti_var_1, opti_var_2], [opti_var_3, opti_var_4]]
         def make_row(contents: List):
+            if is_casadi_type(contents, recursive=False) and contents.shape[1] == 1:
+                return contents.T  # a vector is a row of the array
             try:
                 return _cas.horzcat(*contents)
             except (TypeError, Exception):
-- 
2.43.0


From a3286cda342e60646b1da12ba60848f1240cb769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:13 +0000
Subject: [PATCH 26/36] fix: ConstCurvTrack gives its left and right distance

---
 lumos/models/tracks.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lumos/models/tracks.py b/lumos/models/tracks.py
index f0ad0ac..5381bb2 100644
--- a/lumos/models/tracks.py
+++ b/lumos/models/tracks.py
@@ -199,3 +199,9 @@ class ConstCurvTrack(Track):
     def half_width_at(self, s: float) -> float:
         """Constant halfwidth for now"""
         return self._half_wdith
+
+    def left_distance_at(self, s: float) -> float:
+        return self._half_wdith
+
+    def right_distance_at(self, s: float) -> float:
+        return self._half_wdith
-- 
2.43.0


From c75ba992353c500ba931ee81549cccdf812372eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:29 +0000
Subject: [PATCH 27/36] fix: the iteration log starts afresh with every solve

---
 lumos/optimal_control/scaled_mesh_ocp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index 0a3c6b2..5568a7b 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -205,6 +205,9 @@ class ScaledMeshOCP(CompositeProblem):
             logger.info("Triggering jax JIT")
             self.profile(x0, repeat=1, hessian=self.hessian_approximation == "exact")
             logger.info("Triggering jax JIT completed")
+        # Start the log of this solve afresh
+        self._num_iter = None
+        self._metrics_history_list = []
         # Then solve.
         out = super().solve(*args, **kwargs)
         # TODO: perhaps a better way is to register pre-solve and post-solve tasks.
-- 
2.43.0


From c198e52ab7760f072e6d15371f57121ae487c031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:29 +0000
Subject: [PATCH 28/36] fix: comments and tabs in tyre property files are not
 part of names and entries

---
 lumos/models/tires/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lumos/models/tires/utils.py b/lumos/models/tires/utils.py
index 33c1b0c..508a96e 100644
--- a/lumos/models/tires/utils.py
+++ b/lumos/models/tires/utils.py
@@ -31,10 +31,10 @@ def read_tir_file(file_path: str) -> Dict[str, Any]:
         tir_data = f.readlines()
 
         for line in tir_data:
-            # TODO: this is pretty flaky and would break if somebody puts a "=" into
-            # comments
-            if "=" in line:
-                name, val, *_ = re.split("[=$]", line.replace(" ", ""))
+            # Anything after a "$" is a comment, and white space has no meaning
+            entry = re.sub(r"\s", "", line.split("$")[0])
+            if "=" in entry:
+                name, val = entry.split("=", 1)
                 try:
                     params[name] = float(val)
                 except ValueError:
-- 
2.43.0


From 54752ab311508f6ff01280ed68599149722599bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:15 +0000
Subject: [PATCH 29/36] fix: bounds, scales and boundary conditions given as
 lists mean the same as tuples

---
 lumos/optimal_control/config.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lumos/optimal_control/config.py b/lumos/optimal_control/config.py
index 4bab520..b46cdc0 100644
--- a/lumos/optimal_control/config.py
+++ b/lumos/optimal_control/config.py
@@ -22,6 +22,8 @@ class BoundConfig:
         2) upper bounds should be larger than or equal to lower bounds.
         """
         lb, ub = self.values
+        # always a pair, also when it is given as a list (e.g. read from a file)
+        self.values = (lb, ub)
 
         pretext = f"Failed to set bounds for {self.group}:{self.name}. "
         if np.isscalar(lb) and np.isscalar(ub):
@@ -145,6 +147,10 @@ class SimConfig:
             self.transcription = (self.transcription,)
 
         # Additional operations for desrialization for config fields
+        self.bounds = tuple(self.bounds)
+        self.scales = tuple(self.scales)
+        self.boundary_conditions = tuple(self.boundary_conditions)
+
         if self.bounds and isinstance(self.bounds[0], dict):
             self.bounds = tuple(BoundConfig(**d) for d in self.bounds)
 
-- 
2.43.0


From ca45fb5da56ec0c73310035a86f99973d029d23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:39 +0000
Subject: [PATCH 30/36] fix: models with linear equations can be used with the
 casadi backend

---
 lumos/models/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lumos/models/base.py b/lumos/models/base.py
index ed0c77d..79daa7d 100644
--- a/lumos/models/base.py
+++ b/lumos/models/base.py
@@ -893,7 +893,11 @@ class StateSpaceModel(Model):
             "jacobian": cas.external("implicit_jac", library_path),
             "hessian": cas.external("implicit_hess", library_path),
             "jacobian_structure": (np.array(jac_rows), np.array(jac_cols)),
-            "hessian_structure": (np.array(hess_rows), np.array(hess_cols)),
+            # the type is for models that are linear, ie. without any entries
+            "hessian_structure": (
+                np.array(hess_rows, dtype=int),
+                np.array(hess_cols, dtype=int),
+            ),
         }
 
         self.model_algebra = CasMappedConstraints(
-- 
2.43.0


From 6dad19ae12e9662ed73b43ebcbb018ba554482cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:39 +0000
Subject: [PATCH 31/36] fix: sparsity of condensed problems does not depend on
 current parameters

---
 lumos/optimal_control/scaled_mesh_ocp.py | 35 ++++++++++++++----------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index 5568a7b..48251ee 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -340,25 +340,30 @@ class ScaledMeshOCP(CompositeProblem):
 
     def _condensed_jacobianstructure(self):
         """Return jacobian structure by a pessimistic estimate"""
-        # We estimate the sparsity by passing in a random vecotr. There is the risk
-        # that the sparse library would actually remove explicit zeros (opposite to
-        # structural zeros, these are values that happen to be zero at this point of
-        # calculation and make the estimation more optimistic/sparser). But the risk
-        # is pretty low when we're using float, and it's probably very very small
-        # probability that float computations will become 'zero' accidentally.
-        #
-        # If we want to be conservative, we could create the algebraic and continuity
-        # jacobians with no explicit zeros, which would probably give a more
-        # pessimistic estimate.
-        x0 = np.random.randn(self.num_dec)
-        algebraic_jac = self._con_storage["model_algebra"].get_csc_jacobian(x0)
-        continuity_jac = self._con_storage["continuity"].get_csc_jacobian(x0)
+        # The structure must not depend on the point or the model parameters at which it
+        # is made: a derivative that is zero there (eg. because of a parameter that is
+        # zero now, or an inactive branch of the model) could be non-zero later. So we
+        # use jacobians with random values for all structural entries.
+        def make_pessimistic_jac(con):
+            rows, cols = con.jacobianstructure()
+            vals = 1.0 + np.random.rand(rows.size)
+            return sparse.csc_matrix(
+                (vals, (rows.ravel(), cols.ravel())), con.jac_shape
+            )
+
         # This jac should have a pessimistic structure: the least possible sparsity
         structure_jac = self._make_chainrule_condensed_jacobian(
-            continuity_jac, algebraic_jac
+            make_pessimistic_jac(self._con_storage["continuity"]),
+            make_pessimistic_jac(self._con_storage["model_algebra"]),
         )
+        rows, cols = structure_jac.nonzero()
 
-        return structure_jac.nonzero()
+        # The condensed constraints are not functions of states_dot
+        keep = ~np.isin(
+            cols, self.dec_var_operator.get_group_indcies_in_dec("states_dot")
+        )
+
+        return rows[keep], cols[keep]
 
     def _condensed_hessian(self, x, lagrange):
         """Compute the condensed hessian values.
-- 
2.43.0


From 8c942d491ee27d4208ad5d2ab27f83279c9d7181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:03 +0000
Subject: [PATCH 32/36] fix: linspace, logspace and geomspace of casadi values
 start at the start with a single point

---
 lumos/numpy/casadi_numpy/spacing.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lumos/numpy/casadi_numpy/spacing.py b/lumos/numpy/casadi_numpy/spacing.py
index 83f9e7f..4517f70 100644
--- a/lumos/numpy/casadi_numpy/spacing.py
+++ b/lumos/numpy/casadi_numpy/spacing.py
@@ -11,6 +11,9 @@ def linspace(start: float = 0.0, stop: float = 1.0, num: int = 50):
     """
     if not is_casadi_type([start, stop, num], recursive=True):
         return _onp.linspace(start, stop, num)
+    elif num == 1:
+        # casadi takes the last point where numpy takes the first
+        return _cas.vertcat(start, stop)[0]
     else:
         return _cas.linspace(start, stop, num)
 
-- 
2.43.0


From 65e5da06862d75afbfaef7600b7f7a15c58e09f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:04 +0000
Subject: [PATCH 33/36] fix: the log of a solve does not contain iterations of
 an earlier solve that failed

---
 lumos/optimal_control/scaled_mesh_ocp.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index 48251ee..053ec71 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -208,6 +208,10 @@ class ScaledMeshOCP(CompositeProblem):
         # Start the log of this solve afresh
         self._num_iter = None
         self._metrics_history_list = []
+        if self._logging_dir is not None:
+            # A solve that failed could have left the files of its iterations
+            for file in glob.glob(os.path.join(self._logging_dir, "iter_*.csv")):
+                os.remove(file)
         # Then solve.
         out = super().solve(*args, **kwargs)
         # TODO: perhaps a better way is to register pre-solve and post-solve tasks.
-- 
2.43.0


From 8de4946c0e851b3b8c0743ee6b657057295d47e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:17 +0000
Subject: [PATCH 34/36] fix: rejected bound updates leave bounds and boundary
 conditions as they were

---
 lumos/optimal_control/scaled_mesh_ocp.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index 053ec71..010cddb 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -3,6 +3,7 @@ import glob
 import logging
 import os
 from datetime import datetime
+from functools import wraps
 from pathlib import Path
 from typing import Any, Dict, List, Optional, Tuple, Union
 
@@ -44,6 +45,21 @@ def _split_full_name(group_and_name: str) -> Tuple[str, str]:
     return group_and_name.split(".")
 
 
+def _unchanged_if_rejected(update):
+    """Decorator: bounds and boundary conditions are left as is by a rejected update"""
+
+    @wraps(update)
+    def wrapped(self, *args, **kwargs):
+        lb, ub, conditions = self.lb.copy(), self.ub.copy(), self._boundary_conditions
+        try:
+            return update(self, *args, **kwargs)
+        except Exception:
+            self.lb, self.ub, self._boundary_conditions = lb, ub, conditions
+            raise
+
+    return wrapped
+
+
 class ScaledMeshOCP(CompositeProblem):
     """Generic Optimal Control Problem"""
 
@@ -647,6 +663,7 @@ class ScaledMeshOCP(CompositeProblem):
 
         return rows[keep], cols[keep]
 
+    @_unchanged_if_rejected
     def update_bounds(self, bounds: Tuple[BoundConfig]):
         """Update variable bounds using bound configs.
 
@@ -748,6 +765,7 @@ class ScaledMeshOCP(CompositeProblem):
             self._constraints["model_algebra"].set_con_scales(model_algebra_scales)
             self._constraints["continuity"].set_con_scales(continuity_scales)
 
+    @_unchanged_if_rejected
     def update_boundary_conditions(
         self, boundary_conditions: Tuple[BoundaryConditionConfig]
     ):
-- 
2.43.0


From 1f4b721857929cbb426e387a062e8a88db55013e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:57 +0000
Subject: [PATCH 35/36] fix: a rejected scaling request leaves the scales of
 the problem as they were

---
 lumos/optimal_control/scaled_mesh_ocp.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index 010cddb..8e7f368 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -709,6 +709,10 @@ class ScaledMeshOCP(CompositeProblem):
         }
         var_scales["global"] = np.ones(op.num_global_var)
 
+        # Nothing is changed if one of the configs is for an unknown variable
+        for sc in scale_configs:
+            op.get_var_index_in_dec(sc.group, sc.name)
+
         # create default decision variable scales
         self._dec_var_scales = np.ones(self.num_dec)
 
-- 
2.43.0


From aa852192cc321dd43d7d496e08771db82d278a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:25 +0000
Subject: [PATCH 36/36] fix: compile casadi libraries in a directory of their
 own and move them into place when finished

---
 lumos/models/base.py | 45 +++++++++++++++++++++++++-------------------
 1 file changed, 26 insertions(+), 19 deletions(-)

diff --git a/lumos/models/base.py b/lumos/models/base.py
index 79daa7d..d0510ec 100644
--- a/lumos/models/base.py
+++ b/lumos/models/base.py
@@ -1,6 +1,8 @@
 import hashlib
 import logging
+import os
 import subprocess
+import tempfile
 from abc import abstractmethod
 from collections import namedtuple
 from os.path import exists, getsize
@@ -845,25 +847,30 @@ class StateSpaceModel(Model):
                 [lagrange_hessian],
             )
         )
-        codegen.generate()
-
-        logger.info(f"Generated c-code with {getsize(cfile)} lines: ")
-        # Call compiler if no library exists already
-        with open(cfile, "rb") as f:
-            file_hash = hashlib.md5()
-            for chunk in iter(lambda: f.read(8192), b""):
-                file_hash.update(chunk)
-
-        library_name = file_hash.hexdigest()
-        library_path = "./" + library_name + ".so"
-
-        if exists(library_path):
-            logger.info(f"{library_path} already exists, no compliation is needed.")
-        else:
-            logger.info(f"Compiling casadi library {library_path}")
-            cmd = ["gcc", "-fPIC", "-o2", "-shared", cfile, "-o", library_path]
-            p = subprocess.Popen(cmd)
-            p.wait()
+        # Generate and compile in a directory of our own, and only move the finished library
+        # to its final name: other processes might be building in the same directory, and
+        # an interrupted compilation must not leave a library that is later trusted.
+        with tempfile.TemporaryDirectory(prefix="nlpfunctions_", dir=".") as build_dir:
+            cfile = codegen.generate(os.path.join(build_dir, ""))
+
+            logger.info(f"Generated c-code with {getsize(cfile)} lines: ")
+            # Call compiler if no library exists already
+            with open(cfile, "rb") as f:
+                file_hash = hashlib.md5()
+                for chunk in iter(lambda: f.read(8192), b""):
+                    file_hash.update(chunk)
+
+            library_name = file_hash.hexdigest()
+            library_path = "./" + library_name + ".so"
+
+            if exists(library_path):
+                logger.info(f"{library_path} already exists, no compliation is needed.")
+            else:
+                logger.info(f"Compiling casadi library {library_path}")
+                new_library = os.path.join(build_dir, library_name + ".so")
+                cmd = ["gcc", "-fPIC", "-o2", "-shared", cfile, "-o", new_library]
+                subprocess.run(cmd, check=True)
+                os.replace(new_library, library_path)
 
         # Wrap the functions to take in dict params
         # FIXME: fixed thread number
-- 
2.43.0

