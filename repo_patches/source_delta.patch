From 9c39a3b325436c7949f6cf275613b5856910dad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:32 +0000
Subject: [PATCH 01/54] fix: LowRankAffineHermitianMatrix drops matrix_rank
 when serialized

---
 parametricmatrixmodels/modules/lowrankaffinehermitianmatrix.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parametricmatrixmodels/modules/lowrankaffinehermitianmatrix.py b/parametricmatrixmodels/modules/lowrankaffinehermitianmatrix.py
index 254d9ad..68549b8 100644
--- a/parametricmatrixmodels/modules/lowrankaffinehermitianmatrix.py
+++ b/parametricmatrixmodels/modules/lowrankaffinehermitianmatrix.py
@@ -276,6 +276,7 @@ class LowRankAffineHermitianMatrix(BaseModule):
     def get_hyperparameters(self) -> HyperParams:
         return {
             "matrix_size": self.matrix_size,
+            "matrix_rank": self.matrix_rank,
             "smoothing": self.smoothing,
             "init_magnitude": self.init_magnitude,
             "bias_term": self.bias_term,
-- 
2.43.0


From 4beba8e108de5cc92ccb4e5572ffe80146be9948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:32 +0000
Subject: [PATCH 02/54] fix: Eigenvalues(num_eig=None).get_output_shape fails
 for PyTree input

---
 parametricmatrixmodels/modules/eigenvalues.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/modules/eigenvalues.py b/parametricmatrixmodels/modules/eigenvalues.py
index fbcdf0f..075ea72 100644
--- a/parametricmatrixmodels/modules/eigenvalues.py
+++ b/parametricmatrixmodels/modules/eigenvalues.py
@@ -151,7 +151,7 @@ class Eigenvalues(BaseModule):
         validate_eigensystem_input_shape(input_shape, self.num_eig)
         return jax.tree.map(
             lambda s: (
-                self.num_eig if self.num_eig is not None else input_shape[0],
+                self.num_eig if self.num_eig is not None else s[0],
             ),
             input_shape,
             is_leaf=is_shape_leaf,
-- 
2.43.0


From 1ec06f24cee30afc4541bdea23844d061aeab294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:32 +0000
Subject: [PATCH 03/54] fix: Reshape declares shape None for leaves it leaves
 unchanged

---
 parametricmatrixmodels/modules/reshape.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/modules/reshape.py b/parametricmatrixmodels/modules/reshape.py
index 60a74c3..ba7f5a6 100644
--- a/parametricmatrixmodels/modules/reshape.py
+++ b/parametricmatrixmodels/modules/reshape.py
@@ -174,7 +174,7 @@ class Reshape(BaseModule):
             target_shape: ArrayDataShape | None,
         ) -> ArrayDataShape:
             if target_shape is None:
-                return
+                return in_shape
 
             in_size = np.prod(np.array(in_shape)).item()
             if -1 in target_shape:
-- 
2.43.0


From 536351f505a04fd0c6eec046dbaad65005393a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:32 +0000
Subject: [PATCH 04/54] fix: AffineObservablePMM ignores the bias array b

---
 parametricmatrixmodels/modules/affineobservablepmm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parametricmatrixmodels/modules/affineobservablepmm.py b/parametricmatrixmodels/modules/affineobservablepmm.py
index 94f2317..4abfb02 100644
--- a/parametricmatrixmodels/modules/affineobservablepmm.py
+++ b/parametricmatrixmodels/modules/affineobservablepmm.py
@@ -289,6 +289,7 @@ class AffineObservablePMM(SequentialModel):
             if self.bias_term:
                 self.modules.append(
                     Bias(
+                        bias=self.b,
                         init_magnitude=self.init_magnitude,
                         real=True,
                         scalar=False,
-- 
2.43.0


From 16cb866674536e9a1ddafd5037fd7da05449b049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:32 +0000
Subject: [PATCH 05/54] fix: OneHot.fit sorts feature columns independently and
 so invents categories

---
 parametricmatrixmodels/preprocessing/onehot.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/parametricmatrixmodels/preprocessing/onehot.py b/parametricmatrixmodels/preprocessing/onehot.py
index 8401c7d..8f5e1c7 100644
--- a/parametricmatrixmodels/preprocessing/onehot.py
+++ b/parametricmatrixmodels/preprocessing/onehot.py
@@ -48,12 +48,10 @@ class OneHot(Scaler):
         """
 
         # flatten all feature axes and compute unique values for each leaf
-        # sort the unique values to ensure consistent ordering across runs and
-        # platforms
+        # np.unique sorts the rows lexicographically, which ensures consistent
+        # ordering across runs and platforms
         self.unique_vals_ = jax.tree.map(
-            lambda x: np.sort(
-                np.unique(x.reshape(x.shape[0], -1), axis=0), axis=0
-            ),
+            lambda x: np.unique(x.reshape(x.shape[0], -1), axis=0),
             X,
         )
         self.original_shapes_ = jax.tree.map(lambda x: x.shape[1:], X)
-- 
2.43.0


From d6ca466adb54ba162ce3f164e89275b5073ef13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:31 +0000
Subject: [PATCH 06/54] fix: Model.__add__ modifies the left operand

---
 parametricmatrixmodels/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index 9fc23cc..5afd417 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -1514,7 +1514,8 @@ class Model(BaseModule):
         -------
             New model with the other module or model appended.
         """
-        new_model = self.__class__(self.modules)
+        # copy the container (not the modules) so that self is not modified
+        new_model = self.__class__(jax.tree.map(lambda m: m, self.modules))
         new_model.append_module(other)
         return new_model
 
-- 
2.43.0


From 085bd16efd2f7b17d93b4aa5b80c13051d23d9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:31 +0000
Subject: [PATCH 07/54] fix: modules frozen inside a nested model are trained

---
 parametricmatrixmodels/model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index 5afd417..cfe6d19 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -1256,7 +1256,10 @@ class Model(BaseModule):
         None/())
         """
 
-        def is_trainable(mod: BaseModule) -> bool:
+        def is_trainable(mod: BaseModule) -> PyTree[bool]:
+            # nested models may have both trainable and frozen modules
+            if isinstance(mod, Model):
+                return mod.get_trainable_modules()
             p = mod.get_params()
             has_params = (p is not None) and len(jax.tree.leaves(p)) > 0
             return mod.trainable and has_params
-- 
2.43.0


From 16d5c323a3e723753bba4f78c1738ed39f40cf3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:31 +0000
Subject: [PATCH 08/54] fix: ConcatenateLeaves drops path_order and separator
 when serialized

---
 parametricmatrixmodels/modules/concatenateleaves.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parametricmatrixmodels/modules/concatenateleaves.py b/parametricmatrixmodels/modules/concatenateleaves.py
index 5832d28..4448856 100644
--- a/parametricmatrixmodels/modules/concatenateleaves.py
+++ b/parametricmatrixmodels/modules/concatenateleaves.py
@@ -176,6 +176,8 @@ class ConcatenateLeaves(BaseModule):
     def get_hyperparameters(self) -> HyperParams:
         return {
             "axis": self.axis,
+            "path_order": self.path_order,
+            "separator": self.separator,
         }
 
     def get_params(self) -> Params:
-- 
2.43.0


From 3b5f8ca86fb76fb42e66248850de4be9aa993d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:31 +0000
Subject: [PATCH 09/54] fix: ConcatenateLeaves with a negative axis joins along
 the wrong axis

---
 parametricmatrixmodels/modules/concatenateleaves.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/parametricmatrixmodels/modules/concatenateleaves.py b/parametricmatrixmodels/modules/concatenateleaves.py
index 4448856..03e71dd 100644
--- a/parametricmatrixmodels/modules/concatenateleaves.py
+++ b/parametricmatrixmodels/modules/concatenateleaves.py
@@ -112,7 +112,9 @@ class ConcatenateLeaves(BaseModule):
                     state,
                 )
             else:
-                return np.concatenate(leaves, axis=self.axis + 1), state
+                # negative axes already count from the end
+                axis = self.axis + 1 if self.axis >= 0 else self.axis
+                return np.concatenate(leaves, axis=axis), state
 
         return concatenate_leaves_callable
 
@@ -165,7 +167,8 @@ class ConcatenateLeaves(BaseModule):
                     axis=-1,
                 )
             else:
-                concatenated = np.concatenate(leaves, axis=self.axis + 1)
+                axis = self.axis + 1 if self.axis >= 0 else self.axis
+                concatenated = np.concatenate(leaves, axis=axis)
         except Exception as e:
             raise ValueError(
                 "Could not concatenate leaves with shapes "
-- 
2.43.0


From 20fdd2bafeab103bdf61527d7e4c293f3cd7cafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:11 +0000
Subject: [PATCH 10/54] fix: models with tuple or nested module containers
 cannot be loaded from file

---
 parametricmatrixmodels/model.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index cfe6d19..9679a76 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -1744,6 +1744,22 @@ class Model(BaseModule):
             strict_package_version=strict_package_version,
         )
 
+    @staticmethod
+    def _pack_for_npz(data: Dict[str, Any]) -> Dict[str, Any]:
+        """
+        Store lists and tuples as 0-d object arrays, so that numpy doesn't
+        turn tuples into lists or reject nested containers.
+        """
+
+        def pack(value: Any) -> Any:
+            if not isinstance(value, (list, tuple)):
+                return value
+            packed = onp.empty((), dtype=object)
+            packed[()] = value
+            return packed
+
+        return {key: pack(value) for key, value in data.items()}
+
     @jaxtyped(typechecker=beartype)
     def save(self, file: str | IO | Path, /) -> None:
         """
@@ -1761,7 +1777,7 @@ class Model(BaseModule):
 
         if isinstance(file, str):
             file = file if file.endswith(".npz") else file + ".npz"
-        np.savez(file, **data)
+        np.savez(file, **self._pack_for_npz(data))
 
     @jaxtyped(typechecker=beartype)
     def save_compressed(self, file: str | IO | Path, /) -> None:
@@ -1781,7 +1797,7 @@ class Model(BaseModule):
             file = file if file.endswith(".npz") else file + ".npz"
 
         # jax.numpy doesn't have savez_compressed, so we use numpy
-        onp.savez_compressed(file, **data)
+        onp.savez_compressed(file, **self._pack_for_npz(data))
 
     def load(
         self, file: str | IO | Path, /, *, strict_package_version=False
-- 
2.43.0


From 16a6af5bc161add077ac7b4e012bdbc42fced5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:35 +0000
Subject: [PATCH 11/54] fix: RobustScaler fails on data with more than one
 feature

---
 .../preprocessing/robust_scaler.py                | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/parametricmatrixmodels/preprocessing/robust_scaler.py b/parametricmatrixmodels/preprocessing/robust_scaler.py
index ad83e81..422abcd 100644
--- a/parametricmatrixmodels/preprocessing/robust_scaler.py
+++ b/parametricmatrixmodels/preprocessing/robust_scaler.py
@@ -190,11 +190,8 @@ class RobustScaler(Scaler):
                 "appropriate data before using 'transform'."
             )
         return jax.tree.map(
-            lambda x, median, scale: (
-                (x - median) / scale
-                if np.abs(scale) > self.eps
-                else x - median
-            ),
+            lambda x, median, scale: (x - median)
+            / np.where(np.abs(scale) > self.eps, scale, 1.0),
             X,
             self.median_,
             self.scale_,
@@ -224,11 +221,9 @@ class RobustScaler(Scaler):
                 "appropriate data before using 'inverse_transform'."
             )
         return jax.tree.map(
-            lambda x_scaled, median, scale: (
-                x_scaled * scale + median
-                if np.abs(scale) > self.eps
-                else x_scaled + median
-            ),
+            lambda x_scaled, median, scale: x_scaled
+            * np.where(np.abs(scale) > self.eps, scale, 1.0)
+            + median,
             X_scaled,
             self.median_,
             self.scale_,
-- 
2.43.0


From b999bc2b1af1f837111b37b7c233caa4e844902d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:48 +0000
Subject: [PATCH 12/54] fix: RobustScaler rejects PyTree data unless every
 option is a PyTree

---
 .../preprocessing/robust_scaler.py            | 23 ++++++++++++++-----
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/parametricmatrixmodels/preprocessing/robust_scaler.py b/parametricmatrixmodels/preprocessing/robust_scaler.py
index 422abcd..8013df8 100644
--- a/parametricmatrixmodels/preprocessing/robust_scaler.py
+++ b/parametricmatrixmodels/preprocessing/robust_scaler.py
@@ -125,6 +125,17 @@ class RobustScaler(Scaler):
             self
                 The fitted scaler instance.
         """
+        # options given once apply to every leaf
+        def per_leaf(option: Any) -> Any:
+            if option is None or np.isscalar(option):
+                return jax.tree.map(lambda _: option, X)
+            return option
+
+        q_low = per_leaf(self.q_low)
+        q_high = per_leaf(self.q_high)
+        with_scaling = per_leaf(self.with_scaling)
+        with_centering = per_leaf(self.with_centering)
+
         data_qlow_ = jax.tree.map(
             lambda x, q_low, scale: (
                 np.quantile(x, q_low, axis=0)
@@ -132,8 +143,8 @@ class RobustScaler(Scaler):
                 else None
             ),
             X,
-            self.q_low,
-            self.with_scaling,
+            q_low,
+            with_scaling,
             is_leaf=lambda x: x is None,
         )
         data_qhigh_ = jax.tree.map(
@@ -143,8 +154,8 @@ class RobustScaler(Scaler):
                 else None
             ),
             X,
-            self.q_high,
-            self.with_scaling,
+            q_high,
+            with_scaling,
             is_leaf=lambda x: x is None,
         )
         self.scale_ = jax.tree.map(
@@ -155,14 +166,14 @@ class RobustScaler(Scaler):
             ),
             data_qhigh_,
             data_qlow_,
-            self.with_scaling,
+            with_scaling,
             is_leaf=lambda x: x is None,
         )
 
         self.median_ = jax.tree.map(
             lambda x, center: np.median(x, axis=0) if center else 0.0,
             X,
-            self.with_centering,
+            with_centering,
         )
 
         return self
-- 
2.43.0


From 8c4cb5a7a018ac5531314cf2d9525c64969c822f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:19 +0000
Subject: [PATCH 13/54] fix: Einsum with several leading parameter arrays
 cannot infer dimensions

---
 parametricmatrixmodels/modules/einsum.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/parametricmatrixmodels/modules/einsum.py b/parametricmatrixmodels/modules/einsum.py
index 580a87b..12378b6 100644
--- a/parametricmatrixmodels/modules/einsum.py
+++ b/parametricmatrixmodels/modules/einsum.py
@@ -246,9 +246,13 @@ class Einsum(BaseModule):
             param_shapes_list = (
                 [self.params.shape]
                 if isinstance(self.params, np.ndarray)
-                else jax.tree.leaves(
-                    self.params, is_leaf=lambda x: isinstance(x, np.ndarray)
-                )
+                else [
+                    p.shape
+                    for p in jax.tree.leaves(
+                        self.params,
+                        is_leaf=lambda x: isinstance(x, np.ndarray),
+                    )
+                ]
             )
             if len(leading_strs) != len(param_shapes_list):
                 raise ValueError(
-- 
2.43.0


From 22a6de0674d24bfbceff718736f1a4b1b3ef6685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:19 +0000
Subject: [PATCH 14/54] fix: MatMul drops separator when its hyperparameters
 are set

---
 parametricmatrixmodels/modules/matmul.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parametricmatrixmodels/modules/matmul.py b/parametricmatrixmodels/modules/matmul.py
index e293d40..c060f20 100644
--- a/parametricmatrixmodels/modules/matmul.py
+++ b/parametricmatrixmodels/modules/matmul.py
@@ -421,6 +421,7 @@ class MatMul(Einsum):
             trainable=self.trainable,
             init_magnitude=self.init_magnitude,
             real=self.real,
+            separator=self.separator,
         )
 
         super().set_hyperparameters(hyperparams)
-- 
2.43.0


From 00cec0bf4e30110b81c6ff7537e7dbce64e3a66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:10 +0000
Subject: [PATCH 15/54] fix: connections from nested modules whose container
 name starts with input or output are misread

---
 parametricmatrixmodels/graph_util.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/parametricmatrixmodels/graph_util.py b/parametricmatrixmodels/graph_util.py
index f1566f5..fd5dbc1 100644
--- a/parametricmatrixmodels/graph_util.py
+++ b/parametricmatrixmodels/graph_util.py
@@ -359,12 +359,7 @@ def get_outer_connections_by_tree(
     # we use OrderedSet to preserve order
     conn_stripped: Dict[str, OrderedSet[str]] = {}
     for key, value in conn_separated.items():
-        # special case for 'input' and 'output'
-        if key.startswith("input") or key.startswith("output"):
-            # remove all IO paths here too
-            stripped_key = key.split(separator)[0]
-        else:
-            stripped_key, _ = key.split(double_sep)
+        stripped_key, _ = key.split(double_sep)
         if stripped_key not in conn_stripped:
             conn_stripped[stripped_key] = OrderedSet()
         for v in value:
-- 
2.43.0


From a08a74db96c27cb7693258656bfe6037eea724f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:10 +0000
Subject: [PATCH 16/54] fix: inputs of modules whose name starts with output
 leak into the model output

---
 parametricmatrixmodels/graph_util.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/graph_util.py b/parametricmatrixmodels/graph_util.py
index fd5dbc1..748abda 100644
--- a/parametricmatrixmodels/graph_util.py
+++ b/parametricmatrixmodels/graph_util.py
@@ -639,7 +639,11 @@ def place_connections_in_tree(
 
     # infer the remainder structure
     # search through the reversed_part_conn for all keys starting with out_key
-    output_keys = [k for k in reversed_conn if k.startswith(out_key)]
+    output_keys = [
+        k
+        for k in reversed_conn
+        if k == out_key or k.startswith(out_key + separator)
+    ]
 
     # if theres only a single output key, and that key is exactly out_key,
     # then the remainder is just that value
-- 
2.43.0


From 28d4c50031c1b3a45f12c0bfc03107d4671f460d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:59 +0000
Subject: [PATCH 17/54] fix: evaluating a NonSequentialModel modifies the state
 passed to it

---
 parametricmatrixmodels/nonsequentialmodel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/nonsequentialmodel.py b/parametricmatrixmodels/nonsequentialmodel.py
index 94d8168..846daa3 100644
--- a/parametricmatrixmodels/nonsequentialmodel.py
+++ b/parametricmatrixmodels/nonsequentialmodel.py
@@ -846,7 +846,8 @@ class NonSequentialModel(Model):
                 data,
                 separator=self.separator,
             )
-            new_state = state
+            # copy the containers so that the given state isn't modified
+            new_state = jax.tree.map(lambda s: s, state)
             # now execute each module in the execution order, assembling the
             # inputs from the intermediate outputs
             for mod_path, module_callable, req_in_paths in zip(
-- 
2.43.0


From b6cec7da02f99aa3708717f66f94d26f1b35cea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:59 +0000
Subject: [PATCH 18/54] fix: autobatch with avoid_recompilation fails for
 leaves with one value per sample

---
 parametricmatrixmodels/model_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/model_util.py b/parametricmatrixmodels/model_util.py
index 83938d8..3ba7fe8 100644
--- a/parametricmatrixmodels/model_util.py
+++ b/parametricmatrixmodels/model_util.py
@@ -213,7 +213,7 @@ def autobatch(
                     out_remainders = []
                     for j in range(remainder):
                         X_rem = jax.tree.map(
-                            lambda x: x[j][None, :], X_remainder
+                            lambda x: x[j][None, ...], X_remainder
                         )
                         out_remainder, new_state = jfn(
                             params,
-- 
2.43.0


From 691ccba7e999428f3cf82ec1a6bebe8b68ea95ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:13 +0000
Subject: [PATCH 19/54] fix: gradients ignore a changed fwd option

---
 parametricmatrixmodels/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index 9679a76..ca7b5f4 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -762,6 +762,7 @@ class Model(BaseModule):
             self.grad_callable_inputs = jax.vmap(
                 grad_single, in_axes=(None, 0, None, None, None)
             )
+            self.autobatched_grad_callable_inputs = None
 
         # safecast input to requested dtype
         X_ = safecast(X, dtype)
@@ -904,6 +905,7 @@ class Model(BaseModule):
                 self.grad_callable_params = jax.jacrev(
                     raw_callable, argnums=0, has_aux=True
                 )
+            self.autobatched_grad_callable_params = None
 
         # safecast input to requested dtype
         X_ = safecast(X, dtype)
-- 
2.43.0


From 620f2bacb8a3c698d6ca92eb92716913ee67914f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:13 +0000
Subject: [PATCH 20/54] fix: grad_input rejects leaves with one value per
 sample

---
 parametricmatrixmodels/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index ca7b5f4..e12bea8 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -737,7 +737,7 @@ class Model(BaseModule):
             @jaxtyped(typechecker=beartype)
             def callable_single(
                 params: ModelParams,
-                x: Data,
+                x: PyTree[Inexact[Array, "..."]],  # no batch dim
                 training: bool,
                 state: ModelState,
                 rng: Any,
-- 
2.43.0


From 6c827ed6bc97d0a0f8b6a5338a73d71abcf3f067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:13 +0000
Subject: [PATCH 21/54] fix: grad_params fails by default for complex
 parameters when there are more outputs than inputs

---
 parametricmatrixmodels/model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index e12bea8..499e37c 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -890,7 +890,10 @@ class Model(BaseModule):
             # if fwd is None, decide based on input and output sizes
             # fwd is more efficient when the number of input elements is less
             # than the number of output elements in general
-            fwd = num_input_elems < num_output_elems
+            # jacfwd cannot differentiate with respect to complex parameters
+            fwd = num_input_elems < num_output_elems and not any(
+                np.iscomplexobj(p) for p in jax.tree.leaves(self.get_params())
+            )
 
         if self.grad_callable_params is None or (
             fwd is not None and (self.grad_callable_params_options != fwd)
-- 
2.43.0


From 19599292be8d0090f6f2e7b903f68b8748e65121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:18 +0000
Subject: [PATCH 22/54] fix: built-in losses reject PyTree outputs whose leaves
 differ in shape

---
 parametricmatrixmodels/tree_util.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/parametricmatrixmodels/tree_util.py b/parametricmatrixmodels/tree_util.py
index a42d94b..78b8731 100644
--- a/parametricmatrixmodels/tree_util.py
+++ b/parametricmatrixmodels/tree_util.py
@@ -578,7 +578,7 @@ def extend_structure_from_strpaths(
 
 @jaxtyped(typechecker=beartype)
 def mean(
-    pytree: PyTree[Num[Array, " *d"], " T"],
+    pytree: PyTree[Num[Array, "?*d"], " T"],
 ) -> Num[Array, ""]:
     r"""
     Computes the mean of all elements in all leaves of a PyTree of arrays.
@@ -823,9 +823,9 @@ def pow(
 
 @jaxtyped(typechecker=beartype)
 def scalar_add(
-    pytree: PyTree[Num[Array, " *d"], " T"],
+    pytree: PyTree[Num[Array, "?*d"], " T"],
     scalar: complex | float | int | Num[Array, ""],
-) -> PyTree[Num[Array, " *d"], " T"]:
+) -> PyTree[Num[Array, "?*d"], " T"]:
     r"""
     Adds a scalar value to all leaves of a PyTree of arrays.
 
@@ -847,9 +847,9 @@ def scalar_add(
 
 @jaxtyped(typechecker=beartype)
 def scalar_mul(
-    pytree: PyTree[Num[Array, " *d"], " T"],
+    pytree: PyTree[Num[Array, "?*d"], " T"],
     scalar: complex | float | int | Num[Array, ""],
-) -> PyTree[Num[Array, " *d"], " T"]:
+) -> PyTree[Num[Array, "?*d"], " T"]:
     r"""
     Multiplies all leaves of a PyTree of arrays by a scalar value.
 
-- 
2.43.0


From 3633f1cdd2cf1aa5a6bd5e66a1531e31b72979c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:18 +0000
Subject: [PATCH 23/54] fix: pseudo_huber loss fails for PyTree outputs

---
 parametricmatrixmodels/training.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/parametricmatrixmodels/training.py b/parametricmatrixmodels/training.py
index 6907369..0ef8b48 100644
--- a/parametricmatrixmodels/training.py
+++ b/parametricmatrixmodels/training.py
@@ -1787,14 +1787,9 @@ def make_loss_fn(fn_name: str, model_fn: Callable):
 
             error = pmm_tree_util.sub(Y_pred, Y)
 
-            pseudo_huber_loss = delta**2 * (
-                pmm_tree_util.sqrt(
-                    1
-                    + pmm_tree_util.abs_sqr(
-                        jax.tree.map(lambda x: x / delta, error)
-                    )
-                )
-                - 1
+            pseudo_huber_loss = jax.tree.map(
+                lambda x: delta**2 * (np.sqrt(1 + np.abs(x / delta) ** 2) - 1),
+                error,
             )
 
             return (pmm_tree_util.mean(pseudo_huber_loss), new_state)
-- 
2.43.0


From 06453195e9fc7d7918e5dea75ce3503b8152ba35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:18 +0000
Subject: [PATCH 24/54] fix: training with a custom val_loss_fn fails without
 validation data

---
 parametricmatrixmodels/model.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index 499e37c..929d788 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -1180,8 +1180,11 @@ class Model(BaseModule):
         loss_fn_ = clean_loss_fn(loss_fn, Y_prov, Y_unc_prov)
 
         # repeat for validation
-        Y_val_prov = Y_val is not None
-        Y_val_unc_prov = Y_val_unc is not None
+        # without validation data the training data is used for validation
+        Y_val_prov = Y_val is not None or (X_val is None and Y_prov)
+        Y_val_unc_prov = Y_val_unc is not None or (
+            X_val is None and Y_unc_prov
+        )
         val_loss_fn_ = (
             clean_loss_fn(val_loss_fn, Y_val_prov, Y_val_unc_prov)
             if val_loss_fn is not None
-- 
2.43.0


From 9447a8378d7fccb074370e3146df934962044b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:18 +0000
Subject: [PATCH 25/54] fix: complex Adam counts every epoch twice

---
 parametricmatrixmodels/training.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/training.py b/parametricmatrixmodels/training.py
index 0ef8b48..1c73f80 100644
--- a/parametricmatrixmodels/training.py
+++ b/parametricmatrixmodels/training.py
@@ -265,7 +265,7 @@ def complex_adam(
         v_hat = v / np.float32(1 - b2 ** (i + 1))
         x = x - (step_size(i) * m_hat / (np.sqrt(v_hat) + eps))
 
-        return OptimizerState(x, m, v, i + 1)
+        return OptimizerState(x, m, v, i)
 
     @jaxtyped(typechecker=beartype)
     def get_params(state: OptimizerState) -> ParamArray:
-- 
2.43.0


From 5e0f45c0d772e0abd49a72a7c88ed039e2cd699c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:43 +0000
Subject: [PATCH 26/54] fix: resumed training repeats the optimizer's last
 epoch count

---
 parametricmatrixmodels/training.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/parametricmatrixmodels/training.py b/parametricmatrixmodels/training.py
index 1c73f80..46abe33 100644
--- a/parametricmatrixmodels/training.py
+++ b/parametricmatrixmodels/training.py
@@ -974,6 +974,13 @@ def _train(
                 epoch,
             )
 
+        # increment the optimizers' epoch counters, before the best state is
+        # recorded so that training resumed from it continues the count
+        adam_state = [
+            increment_epoch(int(trainable), state)
+            for trainable, state in zip(trainable_flags_flat, adam_state)
+        ]
+
         # Validation step
         batch_rng, epoch_rng = jax.random.split(batch_rng)
         val_loss = batched_val_loss_fn(
@@ -1043,10 +1050,6 @@ def _train(
             adam_state,
             is_leaf=lambda x: isinstance(x, OptimizerState),
         )
-        adam_state = [
-            increment_epoch(int(trainable), state)
-            for trainable, state in zip(trainable_flags_flat, adam_state)
-        ]
 
         # Return the updated state for the next epoch
         return (
-- 
2.43.0


From c93d464c9a25596c5264da92300800290c77498d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:41 +0000
Subject: [PATCH 27/54] fix: MinMaxScaler rejects PyTree data when a bound is
 None

---
 parametricmatrixmodels/preprocessing/minmax_scaler.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parametricmatrixmodels/preprocessing/minmax_scaler.py b/parametricmatrixmodels/preprocessing/minmax_scaler.py
index 9526d2a..3efcfa3 100644
--- a/parametricmatrixmodels/preprocessing/minmax_scaler.py
+++ b/parametricmatrixmodels/preprocessing/minmax_scaler.py
@@ -109,11 +109,11 @@ class MinMaxScaler(Scaler):
                 "MinMaxScaler instance is not fitted yet. Call 'fit' with "
                 "appropriate data before using 'transform'."
             )
-        if np.isscalar(self.min_val):
+        if self.min_val is None or np.isscalar(self.min_val):
             min_val = jax.tree.map(lambda x: self.min_val, self.data_min_)
         else:
             min_val = self.min_val
-        if np.isscalar(self.max_val):
+        if self.max_val is None or np.isscalar(self.max_val):
             max_val = jax.tree.map(lambda x: self.max_val, self.data_max_)
         else:
             max_val = self.max_val
@@ -157,11 +157,11 @@ class MinMaxScaler(Scaler):
                 "MinMaxScaler instance is not fitted yet. Call 'fit' with "
                 "appropriate data before using 'inverse_transform'."
             )
-        if np.isscalar(self.min_val):
+        if self.min_val is None or np.isscalar(self.min_val):
             min_val = jax.tree.map(lambda x: self.min_val, self.data_min_)
         else:
             min_val = self.min_val
-        if np.isscalar(self.max_val):
+        if self.max_val is None or np.isscalar(self.max_val):
             max_val = jax.tree.map(lambda x: self.max_val, self.data_max_)
         else:
             max_val = self.max_val
-- 
2.43.0


From 7f1c656e3a777285f16e4211bd53701e53911e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:21 +0000
Subject: [PATCH 28/54] fix: RobustScaler fails with per-feature quantile
 levels

---
 .../preprocessing/robust_scaler.py                   | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/parametricmatrixmodels/preprocessing/robust_scaler.py b/parametricmatrixmodels/preprocessing/robust_scaler.py
index 8013df8..60c3711 100644
--- a/parametricmatrixmodels/preprocessing/robust_scaler.py
+++ b/parametricmatrixmodels/preprocessing/robust_scaler.py
@@ -131,6 +131,14 @@ class RobustScaler(Scaler):
                 return jax.tree.map(lambda _: option, X)
             return option
 
+        # quantile levels given as an array apply feature by feature
+        def quantile(x: Array, q: Any) -> Array:
+            if np.ndim(q) == 0:
+                return np.quantile(x, q, axis=0)
+            return np.vectorize(np.quantile, signature="(n),()->()")(
+                np.moveaxis(x, 0, -1), q
+            )
+
         q_low = per_leaf(self.q_low)
         q_high = per_leaf(self.q_high)
         with_scaling = per_leaf(self.with_scaling)
@@ -138,7 +146,7 @@ class RobustScaler(Scaler):
 
         data_qlow_ = jax.tree.map(
             lambda x, q_low, scale: (
-                np.quantile(x, q_low, axis=0)
+                quantile(x, q_low)
                 if q_low is not None and scale
                 else None
             ),
@@ -149,7 +157,7 @@ class RobustScaler(Scaler):
         )
         data_qhigh_ = jax.tree.map(
             lambda x, q_high, scale: (
-                np.quantile(x, q_high, axis=0)
+                quantile(x, q_high)
                 if q_high is not None and scale
                 else None
             ),
-- 
2.43.0


From 49646c51f1002cd6bbf57ce83cc2c494736a3c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:43 +0000
Subject: [PATCH 29/54] fix: SequentialModel rejects modules without parameters
 (data-only Einsum and MatMul)

---
 parametricmatrixmodels/sequentialmodel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/sequentialmodel.py b/parametricmatrixmodels/sequentialmodel.py
index caa7419..7eea08d 100644
--- a/parametricmatrixmodels/sequentialmodel.py
+++ b/parametricmatrixmodels/sequentialmodel.py
@@ -323,7 +323,9 @@ class SequentialModel(Model):
                 is_leaf=lambda x: isinstance(x, tuple)
                 and len(x) == 4
                 and callable(x[0])
-                and isinstance(x[1], (jax.numpy.ndarray, list, tuple, dict)),
+                and isinstance(
+                    x[1], (jax.numpy.ndarray, list, tuple, dict, type(None))
+                ),
             )
 
             # reconstruct new state PyTree
-- 
2.43.0


From d73786643f37d4a629f6444b46f6f6ac5f8fe89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:09 +0000
Subject: [PATCH 30/54] fix: Model.load cannot find files saved to a Path
 without the .npz extension

---
 parametricmatrixmodels/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index 929d788..f4e4604 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -1823,6 +1823,9 @@ class Model(BaseModule):
                 serialize the model does not match the current package version.
                 Default is False.
         """
+        if isinstance(file, Path):
+            # save appends the extension to paths as well as to strings
+            file = str(file)
         if isinstance(file, str):
             file = file if file.endswith(".npz") else file + ".npz"
         # jax numpy load supports both compressed and uncompressed npz files
-- 
2.43.0


From 0413ffcc121fc9396f45aa57c5d4e500444a1265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:09 +0000
Subject: [PATCH 31/54] fix: popping a module by negative index from a tuple
 duplicates the other modules

---
 parametricmatrixmodels/model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index f4e4604..b8cf953 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -1466,8 +1466,9 @@ class Model(BaseModule):
         elif isinstance(self.modules, List):
             return self.modules.pop(index)
         elif isinstance(self.modules, Tuple):
-            module = self.modules[index]
-            self.modules = self.modules[:index] + self.modules[index + 1 :]
+            modules = list(self.modules)
+            module = modules.pop(index)
+            self.modules = tuple(modules)
             return module
         else:
             raise TypeError(
-- 
2.43.0


From 39302236c8312982e884b062c99799bc0c9f6df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:09 +0000
Subject: [PATCH 32/54] fix: assigning a module by index fails when modules are
 stored in a tuple

---
 parametricmatrixmodels/model.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index b8cf953..c6c0575 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -1344,7 +1344,13 @@ class Model(BaseModule):
                     "modules are not stored in a "
                     "list or tuple."
                 )
-            self.modules[key] = module
+            if isinstance(self.modules, Tuple):
+                # tuples are immutable, so replace the whole container
+                modules = list(self.modules)
+                modules[key] = module
+                self.modules = tuple(modules)
+            else:
+                self.modules[key] = module
         else:
             raise TypeError(f"Invalid key type {type(key)} for module access.")
 
-- 
2.43.0


From 8fcce1454f17ce3da5e624dd2ac983ab609cecab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:09 +0000
Subject: [PATCH 33/54] fix: recompiling a model keeps callables cached from
 before a nested model changed

---
 parametricmatrixmodels/model.py              | 6 +++++-
 parametricmatrixmodels/nonsequentialmodel.py | 3 +++
 parametricmatrixmodels/sequentialmodel.py    | 3 +++
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index c6c0575..abe2a12 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -192,8 +192,12 @@ class Model(BaseModule):
     def reset(self) -> None:
         self.input_shape: DataShape | None = None
         self.output_shape: DataShape | None = None
-        self.callable: ModelCallable | None = None
         self._optimizer_state = None
+        self._clear_callables()
+
+    def _clear_callables(self) -> None:
+        # cached callables are only valid for the modules they were built from
+        self.callable: ModelCallable | None = None
         self.grad_callable_params = None
         self.grad_callable_params_options = None
         self.grad_callable_inputs = None
diff --git a/parametricmatrixmodels/nonsequentialmodel.py b/parametricmatrixmodels/nonsequentialmodel.py
index 846daa3..9ca087e 100644
--- a/parametricmatrixmodels/nonsequentialmodel.py
+++ b/parametricmatrixmodels/nonsequentialmodel.py
@@ -401,6 +401,9 @@ class NonSequentialModel(Model):
                 from the model input to the model output.
         """
 
+        # modules may have changed since the callables were cached
+        self._clear_callables()
+
         if rng is None:
             rng = jax.random.key(random.randint(0, 2**32 - 1))
         elif isinstance(rng, int):
diff --git a/parametricmatrixmodels/sequentialmodel.py b/parametricmatrixmodels/sequentialmodel.py
index 7eea08d..3e07d6e 100644
--- a/parametricmatrixmodels/sequentialmodel.py
+++ b/parametricmatrixmodels/sequentialmodel.py
@@ -121,6 +121,9 @@ class SequentialModel(Model):
                 Print debug information during compilation. Default is False.
         """
 
+        # modules may have changed since the callables were cached
+        self._clear_callables()
+
         if rng is None:
             rng = jax.random.key(random.randint(0, 2**32 - 1))
         elif isinstance(rng, int):
-- 
2.43.0


From 50474487c4bcdac4775b92e2735cc88e4f3f9b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:09 +0000
Subject: [PATCH 34/54] fix: fixed Einsum and MatMul ignore the parameters they
 are evaluated with

---
 parametricmatrixmodels/modules/einsum.py | 36 +++++++++---------------
 1 file changed, 13 insertions(+), 23 deletions(-)

diff --git a/parametricmatrixmodels/modules/einsum.py b/parametricmatrixmodels/modules/einsum.py
index 12378b6..ef30f44 100644
--- a/parametricmatrixmodels/modules/einsum.py
+++ b/parametricmatrixmodels/modules/einsum.py
@@ -641,30 +641,20 @@ class Einsum(BaseModule):
             # most of this will be traced out by jax
             arrays = []
 
-            # if trainable, params will be the leading arrays, if there are
-            # any, otherwise it will be an empty tuple
-            if self.trainable:
-                if isinstance(params, np.ndarray):
-                    arrays.append(params)
-                else:
-                    arrays.extend(
-                        jax.tree.leaves(
-                            params,
-                            is_leaf=lambda x: isinstance(x, np.ndarray),
-                        )
-                    )
-            elif not self.trainable and self.params is not None:
-                # if not trainable, params are fixed leading arrays, if any,
-                # and they are stored in self.params
-                if isinstance(self.params, np.ndarray):
-                    arrays.append(self.params)
-                else:
-                    arrays.extend(
-                        jax.tree.leaves(
-                            self.params,
-                            is_leaf=lambda x: isinstance(x, np.ndarray),
-                        )
+            # params will be the leading arrays (trainable or fixed), if there
+            # are any, otherwise it will be None or an empty tuple, in which
+            # case fixed leading arrays are the ones stored in self.params
+            if not self.trainable and not jax.tree.leaves(params):
+                params = self.params
+            if isinstance(params, np.ndarray):
+                arrays.append(params)
+            else:
+                arrays.extend(
+                    jax.tree.leaves(
+                        params,
+                        is_leaf=lambda x: isinstance(x, np.ndarray),
                     )
+                )
             # add the input data arrays
             arrays.extend(
                 jax.tree.leaves(
-- 
2.43.0


From 758056ee7cd74ded9645b3ceb9795289fa233e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:09 +0000
Subject: [PATCH 35/54] fix: connection graphs with a cycle through the input
 are accepted with modules left out

---
 parametricmatrixmodels/graph_util.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parametricmatrixmodels/graph_util.py b/parametricmatrixmodels/graph_util.py
index 748abda..61fa32a 100644
--- a/parametricmatrixmodels/graph_util.py
+++ b/parametricmatrixmodels/graph_util.py
@@ -741,6 +741,13 @@ def resolve_connections(
     # intersect reachable and reverse_reachable
     all_nodes = reachable & reverse_reachable
 
+    # start_key is scheduled first unconditionally, so any edge back into it
+    # from a node that it leads to is a cycle
+    if any(node in all_nodes for node in reverse_graph.get(start_key, [])):
+        raise RuntimeError(
+            f"Connections contain a cycle through '{start_key}'."
+        )
+
     queue = deque([start_key])
     while queue:
         node = queue.popleft()
-- 
2.43.0


From 2aa280b8b80d5cec7aa945703d16d5b9923e1673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:19 +0000
Subject: [PATCH 36/54] fix: extend_structure_from_strpaths fails for nested
 tuples

---
 parametricmatrixmodels/tree_util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/tree_util.py b/parametricmatrixmodels/tree_util.py
index 78b8731..88de20a 100644
--- a/parametricmatrixmodels/tree_util.py
+++ b/parametricmatrixmodels/tree_util.py
@@ -553,7 +553,8 @@ def extend_structure_from_strpaths(
 
     # convert any list nodes that correspond to tuple nodes in the
     # original base_pytree back to tuples
-    for path in tuple_node_paths:
+    # innermost first, since a tuple cannot be modified once converted
+    for path in reversed(tuple_node_paths):
         node = getitem_by_strpath(
             base_pytree, path, separator, allow_early_return=False
         )
-- 
2.43.0


From f02e855a7493f42fba1abd834f994e3a3966dae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:38 +0000
Subject: [PATCH 37/54] fix: recalibrating a ConformalizedModel keeps the old
 quantiles

---
 parametricmatrixmodels/conformal/conformalizedmodel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index e7aa48d..04019a9 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -812,6 +812,8 @@ class ConformalizedModel(object):
         # s = |Y - Y_pred| / u
 
         self.scores = tree_util.div(tree_util.abs(Y_cal_residuals), u_cal)
+        # quantiles cached for earlier scores are no longer valid
+        self.qhats = {}
 
     def parameter_sensitivity(
         self,
-- 
2.43.0


From 9f4ac010c2de226dbbec5f6466c4009b954c57c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:38 +0000
Subject: [PATCH 38/54] fix: conformal intervals undercover when alpha <
 1/(n+1)

---
 .../conformal/conformalizedmodel.py             | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index 04019a9..077ea7d 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -1168,16 +1168,23 @@ class ConformalizedModel(object):
 
         if new_alphas.size > 0:
             n = jax.tree.leaves(self.scores)[0].shape[0]
+            levels = np.ceil((n + 1) * (1 - new_alphas)) / n
             new_qhats = jax.tree.map(
                 # TODO: is there a generalization of quantile for complex
                 # numbers?
-                lambda s: np.quantile(
-                    s,
-                    np.ceil((n + 1) * (1 - new_alphas)) / n,
-                    axis=0,
-                ),
+                lambda s: np.quantile(s, np.minimum(levels, 1.0), axis=0),
                 self.scores,
             )
+            # levels above 1 cannot be supported by n calibration samples,
+            # only an infinite interval has the requested coverage
+            new_qhats = jax.tree.map(
+                lambda q: np.where(
+                    (levels > 1.0).reshape((-1,) + (1,) * (q.ndim - 1)),
+                    np.inf,
+                    q,
+                ),
+                new_qhats,
+            )
             # new_qhats is a PyTree where the leading dimension of each leaf is
             # the number of new alphas, so we need to split it into a list of
             # PyTrees, one for each new alpha
-- 
2.43.0


From c4e885c235d3590c7423aa19f7b2b6d2a89b5dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:38 +0000
Subject: [PATCH 39/54] fix: stratified bias correction fails for more than one
 output

---
 parametricmatrixmodels/conformal/conformalizedmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index 077ea7d..2cb8d80 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -537,7 +537,7 @@ class ConformalizedModel(object):
                         for i in range(self._strata_unique_values.shape[0])
                     ]
                     # bias of 0.0 for points that don't match any strata
-                    + [[0.0]],
+                    + [np.zeros(y.shape[1:], dtype=y.dtype)],
                     dtype=y.dtype,
                 ),
                 Y_cal_residuals,
-- 
2.43.0


From 78b2862a35f1bc1b6ea853fa2d4669ec0b114943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:38 +0000
Subject: [PATCH 40/54] fix: conformal calibration with training data fails
 without distance sensitivity

---
 .../conformal/conformalizedmodel.py           | 30 +++++++++++--------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index 2cb8d80..60eacca 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -675,6 +675,9 @@ class ConformalizedModel(object):
             )
             self._onehot_training_enc.fit(self._training_data)
 
+        if self._training_data is not None and tree_util.any(
+            self._distance_sensitivity
+        ):
             flat_data = self._prepare_data_for_kdtree(self._training_data)
 
             # before building the KDTree, remove any duplicate points in the
@@ -744,17 +747,18 @@ class ConformalizedModel(object):
                     S_input_cal, weights
                 )
 
-            S_dist_cal = self.distance_sensitivity(
-                X_cal,
-                dtype=dtype,
-                normalize=False,
-                verbose=verbose,
-                extra_info="calibration",
-                newline=False,
-            )
-            # no weights for distance sensitivity since it is independent of
-            # the labels
-            self._norm_S_dist = pytree_robust_normalization(S_dist_cal)
+            if tree_util.any(self._distance_sensitivity):
+                S_dist_cal = self.distance_sensitivity(
+                    X_cal,
+                    dtype=dtype,
+                    normalize=False,
+                    verbose=verbose,
+                    extra_info="calibration",
+                    newline=False,
+                )
+                # no weights for distance sensitivity since it is independent
+                # of the labels
+                self._norm_S_dist = pytree_robust_normalization(S_dist_cal)
 
         # compute conformity scores
         u_cal = self.uncertainty_heuristic(
@@ -1695,7 +1699,9 @@ class ConformalizedModel(object):
         conf_model._distance_sensitivity = conf_state["_distance_sensitivity"]
 
         # if the training data is not None, rebuild the KDTree
-        if conf_model._training_data is not None:
+        if conf_model._training_data is not None and tree_util.any(
+            conf_model._distance_sensitivity
+        ):
             flat_data = conf_model._prepare_data_for_kdtree(
                 conf_model._training_data
             )
-- 
2.43.0


From f8a954532a12d0d46cc834ef6cbadad128a652bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:38 +0000
Subject: [PATCH 41/54] fix: conformal calibration fails for categorical leaves
 with several columns

---
 parametricmatrixmodels/conformal/conformalizedmodel.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index 60eacca..32570da 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -640,13 +640,15 @@ class ConformalizedModel(object):
             def compute_range(
                 feature: Inexact[Array, " n_samples f0 *f"],
                 is_continuous: bool,
-            ) -> Real[Array, " f0 *f"]:
+            ) -> Real[Array, "..."]:
                 # categorical features are scaled by 0.5, since we want
                 # categorical features to have d = {0, 1} after one-hot
                 # encoding which has a range of 1 and a max grower distance
                 # of 2 (L1 distance)
                 if not is_continuous:
-                    return np.full(feature.shape[1:], 2.0, dtype=feature.dtype)
+                    # a single value, since the one-hot encoding replaces
+                    # the feature axes
+                    return np.full((1,), 2.0, dtype=feature.dtype)
                 return np.ptp(feature, axis=0)
 
             self._iqr_X_train = jax.tree.map(
-- 
2.43.0


From f067a179bd2750716dbd219cf8335aa9ea16a388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:38 +0000
Subject: [PATCH 42/54] fix: conformal distance sensitivity misaligned for
 multidimensional outputs

---
 parametricmatrixmodels/conformal/conformalizedmodel.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index 32570da..d712216 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -1533,7 +1533,11 @@ class ConformalizedModel(object):
                     clearline=clearline,
                 )
 
-                u = jax.tree.map(lambda x: x + u_dist, u)
+                u = jax.tree.map(
+                    lambda x: x
+                    + u_dist.reshape((n_samples,) + (1,) * (x.ndim - 1)),
+                    u,
+                )
 
         return u
 
-- 
2.43.0


From cf0b78fdb9037b26649124b7922d3b00d96452e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:38 +0000
Subject: [PATCH 43/54] fix: conformal prediction with input uncertainties
 fails or mixes samples

---
 .../conformal/conformalizedmodel.py                 | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index d712216..fb819ad 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -986,9 +986,16 @@ class ConformalizedModel(object):
             X_unc = handle_naninf(X_unc)
             dy_input_unc = tree_util.scalar_mul(
                 jax.tree.map(
-                    lambda _, df: accumulate_sum_sq_over_output_leaves(
-                        u_dtype, df, X_unc
-                    ),
+                    # the uncertainties differ from sample to sample
+                    lambda _, df: jax.vmap(
+                        lambda df_i, unc_i: (
+                            accumulate_sum_sq_over_output_leaves(
+                                u_dtype,
+                                jax.tree.map(lambda d: d[None], df_i),
+                                unc_i,
+                            )[0]
+                        )
+                    )(df, X_unc),
                     self.model.output_shape,
                     df_dx,
                     is_leaf=tree_util.is_shape_leaf,
-- 
2.43.0


From 70cdca238a010fa27477779e1e6fad904b287cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:38 +0000
Subject: [PATCH 44/54] fix: ConformalizedModel.from_file cannot find files
 saved without the .npz extension

---
 parametricmatrixmodels/conformal/conformalizedmodel.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index fb819ad..c1af0cb 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -1777,6 +1777,11 @@ class ConformalizedModel(object):
         A ``ConformalizedModel`` instance.
         """
 
+        if isinstance(file, Path):
+            # save appends the extension to paths as well as to strings
+            file = str(file)
+        if isinstance(file, str):
+            file = file if file.endswith(".npz") else file + ".npz"
         data = np.load(file, allow_pickle=True)
 
         # convert npz object to dict
-- 
2.43.0


From 5628f0ac0248227d4331b8d66890f3d2a9d5669e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:38 +0000
Subject: [PATCH 45/54] fix: ConformalizedModel loaded from file has an array
 as its name

---
 parametricmatrixmodels/conformal/conformalizedmodel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index c1af0cb..f3b240f 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -1796,6 +1796,8 @@ class ConformalizedModel(object):
             data["model_fulltypename"] = data["model_fulltypename"].item()
         if isinstance(data["model_module"], (onp.ndarray, np.ndarray)):
             data["model_module"] = data["model_module"].item()
+        if isinstance(data["conformal_name"], (onp.ndarray, np.ndarray)):
+            data["conformal_name"] = data["conformal_name"].item()
         if isinstance(
             data["conformalization_state"], (onp.ndarray, np.ndarray)
         ):
-- 
2.43.0


From d75df66d94195d2b53e13ce09bf712a596baebdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:40 +0000
Subject: [PATCH 46/54] fix: conformal calibration with label uncertainties
 fails

---
 .../conformal/conformalizedmodel.py           | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index f3b240f..d5f14a3 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -1827,10 +1827,21 @@ def weighted_quantile(
     axis: int = 0,
     quantiles: Real[Array, " q"] | float = 0.5,
 ) -> Inexact[Array, "..."]:
-    idxs = np.argsort(weights, axis=axis)
-    cum_weights = np.cumsum(weights[idxs], axis=axis)
-    w_qs = np.interp(quantiles * cum_weights[~0], cum_weights, data[idxs])
-    return w_qs
+    # sort by value, separately for each of the entries across the other axes
+    data = np.moveaxis(data, axis, 0)
+    weights = np.moveaxis(weights, axis, 0)
+    idxs = np.argsort(data, axis=0)
+    data = np.take_along_axis(data, idxs, axis=0)
+    weights = np.take_along_axis(weights, idxs, axis=0)
+    cum_weights = np.cumsum(weights, axis=0)
+
+    n, shape = data.shape[0], data.shape[1:]
+    w_qs = jax.vmap(
+        lambda w, d: np.interp(quantiles * w[~0], w, d),
+        in_axes=1,
+        out_axes=-1,
+    )(cum_weights.reshape(n, -1), data.reshape(n, -1))
+    return w_qs.reshape(np.shape(quantiles) + shape)
 
 
 def mad(
-- 
2.43.0


From 9be8a9b4ff0c9b922abcb4fa6ef9a23d180add51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:22 +0000
Subject: [PATCH 47/54] fix: compiled models declare the compiled output shape
 for every input shape

---
 parametricmatrixmodels/nonsequentialmodel.py | 3 ++-
 parametricmatrixmodels/sequentialmodel.py    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/parametricmatrixmodels/nonsequentialmodel.py b/parametricmatrixmodels/nonsequentialmodel.py
index 9ca087e..3f4f655 100644
--- a/parametricmatrixmodels/nonsequentialmodel.py
+++ b/parametricmatrixmodels/nonsequentialmodel.py
@@ -724,7 +724,8 @@ class NonSequentialModel(Model):
             output_shape
                 Shape of the output after passing through the model.
         """
-        if self.is_ready():
+        # the recorded shape is only valid for the compiled input shape
+        if self.is_ready() and input_shape == self.input_shape:
             return self.output_shape
 
         _, _, output_shape = self._get_shape_progression(input_shape)
diff --git a/parametricmatrixmodels/sequentialmodel.py b/parametricmatrixmodels/sequentialmodel.py
index 3e07d6e..db98d26 100644
--- a/parametricmatrixmodels/sequentialmodel.py
+++ b/parametricmatrixmodels/sequentialmodel.py
@@ -176,7 +176,8 @@ class SequentialModel(Model):
             output_shape
                 Shape of the output after passing through the model.
         """
-        if self.is_ready():
+        # the recorded shape is only valid for the compiled input shape
+        if self.is_ready() and input_shape == self.input_shape:
             return self.output_shape
         else:
             shape = input_shape
-- 
2.43.0


From 49d1ed61c52d56e9312d9a99dae19652f88bad9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:22 +0000
Subject: [PATCH 48/54] fix: activations that are not elementwise declare the
 wrong output shape

---
 .../modules/activationbase.py                  | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/modules/activationbase.py b/parametricmatrixmodels/modules/activationbase.py
index cdb6bcb..fb7f1de 100644
--- a/parametricmatrixmodels/modules/activationbase.py
+++ b/parametricmatrixmodels/modules/activationbase.py
@@ -5,8 +5,10 @@ import jax.numpy as np
 from beartype import beartype
 from jaxtyping import jaxtyped
 
+from parametricmatrixmodels.tree_util import is_shape_leaf
 from parametricmatrixmodels.typing import (
     Any,
+    ArrayDataShape,
     Data,
     DataShape,
     HyperParams,
@@ -146,7 +148,21 @@ class ActivationBase(BaseModule):
         -------
             Output shapes after applying the activation function.
         """
-        return input_shape
+
+        # not every function is elementwise (e.g. GLU, OneHot, LogSumExp)
+        def leaf_output_shape(shape: ArrayDataShape) -> DataShape:
+            try:
+                output = jax.eval_shape(
+                    self.func, jax.ShapeDtypeStruct((1, *shape), np.float32)
+                )
+            except Exception:
+                # the function isn't applicable to arrays of this shape
+                return shape
+            return jax.tree.map(lambda o: o.shape[1:], output)
+
+        return jax.tree.map(
+            leaf_output_shape, input_shape, is_leaf=is_shape_leaf
+        )
 
     def get_hyperparameters(self) -> HyperParams:
         """
-- 
2.43.0


From 19a944650f174fad244b05a94e38323065ce6277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:01 +0000
Subject: [PATCH 49/54] fix: scalers fitted on list or tuple data cannot be
 saved and loaded

---
 .../preprocessing/scaler.py                   | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/parametricmatrixmodels/preprocessing/scaler.py b/parametricmatrixmodels/preprocessing/scaler.py
index 5cb0bd0..8fc73a3 100644
--- a/parametricmatrixmodels/preprocessing/scaler.py
+++ b/parametricmatrixmodels/preprocessing/scaler.py
@@ -142,6 +142,22 @@ class Scaler(ABC):
         """
         pass
 
+    @staticmethod
+    def _pack_for_npz(data: Dict[str, Any]) -> Dict[str, Any]:
+        """
+        Store lists and tuples as 0-d object arrays, so that numpy doesn't
+        merge their entries into one array or reject them.
+        """
+
+        def pack(value: Any) -> Any:
+            if not isinstance(value, (list, tuple)):
+                return value
+            packed = onp.empty((), dtype=object)
+            packed[()] = value
+            return packed
+
+        return {key: pack(value) for key, value in data.items()}
+
     @final
     def save(self, filepath: IO | Path | str) -> None:
         r"""
@@ -152,7 +168,7 @@ class Scaler(ABC):
         filepath
             Path to the file where the scaler will be saved.
         """
-        data = self.serialize()
+        data = self._pack_for_npz(self.serialize())
         if isinstance(filepath, str) and not filepath.endswith(".npz"):
             filepath += ".npz"
         onp.savez(filepath, **data)
@@ -167,7 +183,7 @@ class Scaler(ABC):
         filepath
             Path to the file where the scaler will be saved.
         """
-        data = self.serialize()
+        data = self._pack_for_npz(self.serialize())
         if isinstance(filepath, str) and not filepath.endswith(".npz"):
             filepath += ".npz"
         onp.savez_compressed(filepath, **data)
-- 
2.43.0


From f5a147d10764d6f18f7e5e6616b0c88a1bd8787d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:01 +0000
Subject: [PATCH 50/54] fix: Scaler.load cannot find files saved to a Path
 without the .npz extension

---
 parametricmatrixmodels/preprocessing/scaler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parametricmatrixmodels/preprocessing/scaler.py b/parametricmatrixmodels/preprocessing/scaler.py
index 8fc73a3..93ede4c 100644
--- a/parametricmatrixmodels/preprocessing/scaler.py
+++ b/parametricmatrixmodels/preprocessing/scaler.py
@@ -203,6 +203,9 @@ class Scaler(ABC):
         Scaler
             Loaded scaler.
         """
+        if isinstance(filepath, Path):
+            # save appends the extension to paths as well as to strings
+            filepath = str(filepath)
         if isinstance(filepath, str) and not filepath.endswith(".npz"):
             filepath += ".npz"
         data = onp.load(filepath, allow_pickle=True)
-- 
2.43.0


From fdf90228c3bb5aa788ff897b9c868c5c6a5fd799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:01 +0000
Subject: [PATCH 51/54] fix: MinMaxScaler and StandardScaler divide by zero for
 constant features

---
 parametricmatrixmodels/preprocessing/minmax_scaler.py   | 6 ++++--
 parametricmatrixmodels/preprocessing/standard_scaler.py | 4 +++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/parametricmatrixmodels/preprocessing/minmax_scaler.py b/parametricmatrixmodels/preprocessing/minmax_scaler.py
index 3efcfa3..b0950df 100644
--- a/parametricmatrixmodels/preprocessing/minmax_scaler.py
+++ b/parametricmatrixmodels/preprocessing/minmax_scaler.py
@@ -121,7 +121,9 @@ class MinMaxScaler(Scaler):
         return jax.tree.map(
             lambda x, data_min, data_max, min_v, max_v: (
                 (
-                    (x - data_min) / (data_max - data_min) * (max_v - min_v)
+                    (x - data_min)
+                    / np.where(data_max > data_min, data_max - data_min, 1.0)
+                    * (max_v - min_v)
                     + min_v
                 )
                 if (min_v is not None and max_v is not None)
@@ -171,7 +173,7 @@ class MinMaxScaler(Scaler):
                 (
                     (x_scaled - min_v)
                     / (max_v - min_v)
-                    * (data_max - data_min)
+                    * np.where(data_max > data_min, data_max - data_min, 1.0)
                     + data_min
                 )
                 if (min_v is not None and max_v is not None)
diff --git a/parametricmatrixmodels/preprocessing/standard_scaler.py b/parametricmatrixmodels/preprocessing/standard_scaler.py
index a8a1075..3d057fd 100644
--- a/parametricmatrixmodels/preprocessing/standard_scaler.py
+++ b/parametricmatrixmodels/preprocessing/standard_scaler.py
@@ -42,7 +42,9 @@ class StandardScaler(Scaler):
                 The fitted scaler instance.
         """
         self.mean_ = jax.tree.map(lambda x: np.mean(x, axis=0), X)
-        self.scale_ = jax.tree.map(lambda x: np.std(x, axis=0), X)
+        # constant features are only centered
+        std = jax.tree.map(lambda x: np.std(x, axis=0), X)
+        self.scale_ = jax.tree.map(lambda s: np.where(s > 0, s, 1.0), std)
 
         return self
 
-- 
2.43.0


From caed32a9ccc37edbace4b9c1454aba1497c6ddd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:31 +0000
Subject: [PATCH 52/54] fix: MatMul multiplies in the wrong order for dicts
 whose keys are digits

The permutation from path_order to the order of the leaves was read off a tree
rebuilt from the paths, in which digit keys are ordered as numbers; the leaves
of the input dict are ordered as strings.
---
 parametricmatrixmodels/modules/matmul.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/parametricmatrixmodels/modules/matmul.py b/parametricmatrixmodels/modules/matmul.py
index c060f20..9a98589 100644
--- a/parametricmatrixmodels/modules/matmul.py
+++ b/parametricmatrixmodels/modules/matmul.py
@@ -3,11 +3,7 @@ from __future__ import annotations
 import jax
 from jaxtyping import Array, Inexact
 
-from ..tree_util import (
-    extend_structure_from_strpaths,
-    getitem_by_strpath,
-    is_shape_leaf,
-)
+from ..tree_util import getitem_by_strpath, is_shape_leaf
 from ..typing import (
     Any,
     DataShape,
@@ -367,14 +363,18 @@ class MatMul(Einsum):
                 for i, p in enumerate(self.path_order)
                 if p != double_sep
             ]
-            # the index for the param matrix is at param_idx (if applicable)
-            pths = [p for p, _ in pths_origs]
-            idxs = [i for _, i in pths_origs]
-            temp_tree = extend_structure_from_strpaths(
-                None, pths, separator=self.separator, fill_values=idxs
+            # number the leaves of the input, so that the paths find their
+            # place whatever the order of the keys in the tree
+            leaves, struct = jax.tree.flatten(
+                input_shape, is_leaf=is_shape_leaf
             )
-            # now flatten the tree to get the permutation
-            perm = jax.tree.leaves(temp_tree)
+            leaf_idxs = jax.tree.unflatten(struct, list(range(len(leaves))))
+            perm = [0] * len(leaves)
+            for p, i in pths_origs:
+                leaf_idx = getitem_by_strpath(
+                    leaf_idxs, p, separator=self.separator
+                )
+                perm[leaf_idx] = i
 
             # if param_idx is not None, we just prepend it to the perm
             if param_idx is not None:
-- 
2.43.0


From ee00044dedf5273ba6db8d4844fd767fbf92d91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:12 +0000
Subject: [PATCH 53/54] fix: LinearNN declares the wrong output shape for
 activations that change it

---
 parametricmatrixmodels/modules/linearnn.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/modules/linearnn.py b/parametricmatrixmodels/modules/linearnn.py
index 461544e..66d0e6c 100644
--- a/parametricmatrixmodels/modules/linearnn.py
+++ b/parametricmatrixmodels/modules/linearnn.py
@@ -137,7 +137,11 @@ class LinearNN(SequentialModel):
                 "out_features must be specified before getting output shape."
             )
 
-        return (self.out_features,)
+        output_shape = (self.out_features,)
+        if self.activation is not None:
+            # the activation may change the shape, e.g. GLU
+            output_shape = self.activation.get_output_shape(output_shape)
+        return output_shape
 
     def get_hyperparameters(self) -> HyperParams:
         r"""
-- 
2.43.0


From 9732265ef7b451b176b2f105c260f924b39c67e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:24 +0000
Subject: [PATCH 54/54] fix: models that are not ready report a number of
 trainable floats

A model that builds its modules when it is compiled (LinearNN,
AffineObservablePMM) counted 0 floats before, and so did every model
containing one; BaseModule documents None for modules that are not ready.
---
 parametricmatrixmodels/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index abe2a12..f631c90 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -145,6 +145,8 @@ class Model(BaseModule):
         self._name = value
 
     def get_num_trainable_floats(self) -> int | None:
+        if not self.is_ready():
+            return None
         num_trainable_floats = [
             module.get_num_trainable_floats()
             for module in jax.tree.leaves(self.modules)
-- 
2.43.0

