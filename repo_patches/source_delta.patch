From 66cc89451025ab80e78c2ede51045aba6bbf4745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:49 +0000
Subject: [PATCH 001/139] fix: no output-bound gradient mask for a perfect
 forward pass

---
 src/aihwkit/simulator/tiles/rpucuda.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/rpucuda.py b/src/aihwkit/simulator/tiles/rpucuda.py
index 639a925..2aa8770 100644
--- a/src/aihwkit/simulator/tiles/rpucuda.py
+++ b/src/aihwkit/simulator/tiles/rpucuda.py
@@ -16,6 +16,7 @@ from torch.autograd import no_grad
 
 from aihwkit.exceptions import CudaError
 from aihwkit.simulator.parameters.base import RPUConfigGeneric
+from aihwkit.simulator.parameters.enums import AnalogMVType
 from aihwkit.simulator.rpu_base import cuda, tiles
 from aihwkit.simulator.tiles.base import SimulatorTileWrapper
 from aihwkit.exceptions import ArgumentError
@@ -120,8 +121,12 @@ class RPUCudaSimulatorTileWrapper(SimulatorTileWrapper):
         """Helper for getting the output bound to correct the
         gradients using the AnalogFunction.
         """
-        if hasattr(self.rpu_config, "forward") and self.rpu_config.forward.out_bound > 0:
-            return self.rpu_config.forward.out_scale * self.rpu_config.forward.out_bound * 0.999
+        forward = getattr(self.rpu_config, "forward", None)
+        if forward is None or forward.is_perfect or forward.mv_type == AnalogMVType.IDEAL:
+            # a perfect forward pass does not have any output bound
+            return None
+        if forward.out_bound > 0:
+            return forward.out_scale * forward.out_bound * 0.999
         return None
 
     @no_grad()
-- 
2.43.0


From 62970e8632629aa5c9c2a5011f964759da1f27ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:49 +0000
Subject: [PATCH 002/139] fix: mixed transposed passes, empty inputs and update
 argument names of the tile bindings

---
 .../simulator/rpu_base_src/rpu_base_tiles.cpp | 26 +++++++------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/src/aihwkit/simulator/rpu_base_src/rpu_base_tiles.cpp b/src/aihwkit/simulator/rpu_base_src/rpu_base_tiles.cpp
index bf8a1c0..d4206f2 100644
--- a/src/aihwkit/simulator/rpu_base_src/rpu_base_tiles.cpp
+++ b/src/aihwkit/simulator/rpu_base_src/rpu_base_tiles.cpp
@@ -415,7 +415,7 @@ void declare_rpu_tiles(py::module &m, std::string type_name_add) {
             }
             int in_size = x_trans ? x_input.size(0) : x_input.size(-1);
             int expected_in_size = self.getXSize() - (bias ? 1 : 0);
-            int m_batch = x_input.numel() / in_size;
+            int m_batch = in_size > 0 ? x_input.numel() / in_size : 0;
             int out_size = self.getDSize();
 
             // Validate the x_input dimensions.
@@ -428,11 +428,8 @@ void declare_rpu_tiles(py::module &m, std::string type_name_add) {
 
             // Build the buffers.
             std::vector<int64_t> dims(x_input.sizes().begin(), x_input.sizes().end());
-            if (d_trans) {
-              dims[0] = out_size;
-            } else {
-              dims[dims.size() - 1] = out_size;
-            }
+            dims.erase(x_trans ? dims.begin() : dims.end() - 1);
+            dims.insert(d_trans ? dims.begin() : dims.end(), out_size);
             torch::Tensor d_output = torch::empty(dims, x_input.options());
 
             // Call RPU function.
@@ -485,7 +482,7 @@ void declare_rpu_tiles(py::module &m, std::string type_name_add) {
             }
             int in_size = d_trans ? d_input.size(0) : d_input.size(-1);
             int expected_in_size = self.getDSize();
-            int m_batch = d_input.numel() / in_size;
+            int m_batch = in_size > 0 ? d_input.numel() / in_size : 0;
             int out_size = self.getXSize() - (bias ? 1 : 0);
 
             // Validate the d_input dimensions.
@@ -498,11 +495,8 @@ void declare_rpu_tiles(py::module &m, std::string type_name_add) {
 
             // Build the buffers.
             std::vector<int64_t> dims(d_input.sizes().begin(), d_input.sizes().end());
-            if (x_trans) {
-              dims[0] = out_size;
-            } else {
-              dims[dims.size() - 1] = out_size;
-            }
+            dims.erase(d_trans ? dims.begin() : dims.end() - 1);
+            dims.insert(x_trans ? dims.begin() : dims.end(), out_size);
             torch::Tensor x_output = torch::empty(dims, d_input.options());
 
             // Call RPU function.
@@ -561,11 +555,11 @@ void declare_rpu_tiles(py::module &m, std::string type_name_add) {
 
             int in_size = x_trans ? x_input.size(0) : x_input.size(-1);
             int expected_in_size = self.getXSize() - (bias ? 1 : 0);
-            int m_batch = x_input.numel() / in_size;
+            int m_batch = in_size > 0 ? x_input.numel() / in_size : 0;
 
             int out_size = d_trans ? d_input.size(0) : d_input.size(-1);
             int expected_out_size = self.getDSize();
-            int m_batch_from_d = d_input.numel() / out_size;
+            int m_batch_from_d = out_size > 0 ? d_input.numel() / out_size : 0;
 
             // Validate the x_input dimensions.
             if (in_size != expected_in_size) {
@@ -594,8 +588,8 @@ void declare_rpu_tiles(py::module &m, std::string type_name_add) {
                 reinterpret_cast<T_RPU *>(d_input.template data_ptr<T>()), bias, m_batch, x_trans,
                 d_trans);
           },
-          py::arg("x_input"), py::arg("d_input"), py::arg("bias"), py::arg("d_trans") = false,
-          py::arg("x_trans") = false, py::arg("non_blocking") = false,
+          py::arg("x_input"), py::arg("d_input"), py::arg("bias"), py::arg("x_trans") = false,
+          py::arg("d_trans") = false, py::arg("non_blocking") = false,
           R"pbdoc(
            Compute an n-rank update.
 
-- 
2.43.0


From e735f88eb929447ab7c4d038152b2794d4bf66c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:02 +0000
Subject: [PATCH 003/139] fix: convolutions recompute indices on image shape
 change and scale outputs along the channel dimension

---
 src/aihwkit/nn/modules/conv.py        | 5 +++--
 src/aihwkit/nn/modules/conv_mapped.py | 9 +++++----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/aihwkit/nn/modules/conv.py b/src/aihwkit/nn/modules/conv.py
index 6859e95..efa6136 100644
--- a/src/aihwkit/nn/modules/conv.py
+++ b/src/aihwkit/nn/modules/conv.py
@@ -92,6 +92,7 @@ class _AnalogConvNd(AnalogLayerBase, _ConvNd):
 
         self.fold_indices = Tensor().detach()
         self.input_size = 0
+        self.input_shape = None  # type: Optional[Tuple[int, ...]]
         self.tensor_view = (-1,)  # type: Tuple[int, ...]
 
         # Unregister weight/bias as a parameter but keep it for syncs
@@ -131,6 +132,7 @@ class _AnalogConvNd(AnalogLayerBase, _ConvNd):
         self.fold_indices, image_sizes, self.input_size = self._calculate_indexes(
             x_input, self.in_channels
         )
+        self.input_shape = x_input.shape[1:]
         self.analog_module.set_indexed(self.fold_indices, image_sizes)
 
     @no_grad()
@@ -164,8 +166,7 @@ class _AnalogConvNd(AnalogLayerBase, _ConvNd):
         if not use_indexed and self.NEEDS_INDEXED:
             raise ModuleError("Tile module does not support indexed computation.")
         if use_indexed:
-            input_size = x_input.numel() / x_input.size(0)
-            if self.input_size != input_size or not self.analog_module.is_indexed():
+            if self.input_shape != x_input.shape[1:] or not self.analog_module.is_indexed():
                 self._recalculate_indexes(x_input)
             return self.analog_module(x_input, tensor_view=self.tensor_view)
 
diff --git a/src/aihwkit/nn/modules/conv_mapped.py b/src/aihwkit/nn/modules/conv_mapped.py
index 65caa2f..d09c3f6 100644
--- a/src/aihwkit/nn/modules/conv_mapped.py
+++ b/src/aihwkit/nn/modules/conv_mapped.py
@@ -110,6 +110,7 @@ class _AnalogConvNdMapped(AnalogLayerBase, _ConvNd):
         self.use_indexed = self.use_indexed and analog_tile.supports_indexed
 
         self.input_size = 0
+        self.input_shape = None  # type: Optional[Tuple[int, ...]]
         self.fold_indices_lst = []  # type: List[Tensor]
         self.tensor_view = (-1,)  # type: Tuple[int, ...]
 
@@ -195,6 +196,7 @@ class _AnalogConvNdMapped(AnalogLayerBase, _ConvNd):
 
         """
         self.input_size = x_input.numel() / x_input.size(0)
+        self.input_shape = x_input.shape[1:]
         if x_input.ndim < 3:
             raise ModuleError("Expect >2-dim inputs to convolutions")
         channel_dim = 1
@@ -234,13 +236,12 @@ class _AnalogConvNdMapped(AnalogLayerBase, _ConvNd):
         use_indexed = self.use_indexed and analog_tile.supports_indexed
 
         if use_indexed:
-            input_size = x_input.numel() / x_input.size(0)
-            if self.input_size != input_size or not analog_tile.is_indexed():
+            if self.input_shape != x_input.shape[1:] or not analog_tile.is_indexed():
                 self._recalculate_indexes(x_input)
 
         if self.analog_tile_count() == 1:
             if use_indexed:
-                output = analog_tile(x_input)
+                output = analog_tile(x_input, tensor_view=self.tensor_view)
             else:
                 output = self._single_unfold(analog_tile, x_input)
 
@@ -257,7 +258,7 @@ class _AnalogConvNdMapped(AnalogLayerBase, _ConvNd):
 
             for analog_tile in in_tiles:
                 if use_indexed:
-                    output = analog_tile(x)
+                    output = analog_tile(x, tensor_view=self.tensor_view)
                 else:
                     output = self._single_unfold(analog_tile, x)
                 out_result.append(output)
-- 
2.43.0


From 15c7ab997137c8ea7c9dc40bc8af66e32ae2deb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:25 +0000
Subject: [PATCH 004/139] fix: weight programming from reference, float mapping
 scales and realistic read with given inputs

---
 src/aihwkit/simulator/tiles/periphery.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/periphery.py b/src/aihwkit/simulator/tiles/periphery.py
index 4747399..a7216ba 100644
--- a/src/aihwkit/simulator/tiles/periphery.py
+++ b/src/aihwkit/simulator/tiles/periphery.py
@@ -278,12 +278,12 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
 
         if not from_reference or self.reference_combined_weights is None:
             self.reference_combined_weights = self.tile.get_weights()
-            target_weights = self.reference_combined_weights
+        target_weights = self.reference_combined_weights
 
         if x_values is None:
             x_values = eye(self.tile.get_x_size())
-            x_values = x_values.to(self.device)
-            target_values = x_values @ target_weights.to(self.device).T
+        x_values = x_values.to(self.device)
+        target_values = x_values @ target_weights.to(self.device).T
 
         target_max = target_values.abs().max().item()
         if isinstance(w_init, Tensor):
@@ -416,7 +416,7 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
 
         # calculate pseudo inverse (with bias, if necessary)
         if self.analog_bias:
-            ones_column = ones(self.in_size * over_sampling, 1, device=self.device, dtype=dtype)
+            ones_column = ones(x_values.size(0), 1, device=self.device, dtype=dtype)
             x_values = cat([x_values, ones_column], axis=1)
 
         est_weight = lstsq(x_values, y_values).solution.T.cpu()  # pylint: disable=not-callable
@@ -524,7 +524,7 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
         if isinstance(mapping_scales, float):
             if self.mapping_scales is None:
                 self.mapping_scales = ones((1,), dtype=self.get_dtype(), device=self.device)
-                self.mapping_scales[:] = mapping_scales
+            self.mapping_scales[:] = mapping_scales
         elif isinstance(self.mapping_scales, Tensor) and len(mapping_scales) == 1:
             self.mapping_scales[:] = mapping_scales.to(self.device)
         else:
-- 
2.43.0


From 6e22bb733db700475654e6038a7c45d75e44a14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:18 +0000
Subject: [PATCH 005/139] fix: regrouping keeps the options of the parameter
 group for analog parameters

---
 src/aihwkit/optim/analog_optimizer.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/optim/analog_optimizer.py b/src/aihwkit/optim/analog_optimizer.py
index 347693b..3f1d7c4 100644
--- a/src/aihwkit/optim/analog_optimizer.py
+++ b/src/aihwkit/optim/analog_optimizer.py
@@ -38,9 +38,15 @@ class AnalogOptimizerMixin:
             for param in group["params"]:
                 if isinstance(param, AnalogContext):
                     param.analog_tile.set_learning_rate(
-                        self.defaults["lr"]  # type: ignore[attr-defined]
+                        group.get("lr", self.defaults["lr"])  # type: ignore[attr-defined]
                     )
-                    analog_param_groups.append({"params": [param]})
+                    # Keep the options (eg. learning rate) of the original group.
+                    options = {
+                        key: value
+                        for key, value in group.items()
+                        if key not in ("params", "param_names")
+                    }
+                    analog_param_groups.append({**options, "params": [param]})
                     rm_lst.append(id(param))
 
             group["params"] = [p for p in group["params"] if id(p) not in rm_lst]
-- 
2.43.0


From bcc52c2f5d6269d02dbf321acaa17590ed1a57c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:18 +0000
Subject: [PATCH 006/139] fix: zero_grad discards the gradient trace of the
 analog tiles

---
 src/aihwkit/optim/analog_optimizer.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/aihwkit/optim/analog_optimizer.py b/src/aihwkit/optim/analog_optimizer.py
index 3f1d7c4..fcee5ef 100644
--- a/src/aihwkit/optim/analog_optimizer.py
+++ b/src/aihwkit/optim/analog_optimizer.py
@@ -62,6 +62,18 @@ class AnalogOptimizerMixin:
         for group in analog_param_groups:
             self.add_param_group(group)  # type: ignore[attr-defined]
 
+    def zero_grad(self, *args: Any, **kwargs: Any) -> None:
+        """Reset the gradients of all optimized parameters.
+
+        This also discards the gradient trace stored for the analog tiles.
+        """
+        super().zero_grad(*args, **kwargs)  # type: ignore[misc]
+
+        for group in self.param_groups:
+            for param in group["params"]:
+                if isinstance(param, AnalogContext):
+                    param.reset()
+
     @no_grad()
     def step(self, closure: Optional[Callable] = None, **kwargs: Any) -> Optional[float]:
         """Perform an analog-aware single optimization step.
-- 
2.43.0


From 900229718df6a46cde4c1f74773d7f8815f888c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:18 +0000
Subject: [PATCH 007/139] fix: accumulated analog gradients may differ in their
 batch dimensions

---
 src/aihwkit/optim/analog_optimizer.py | 29 ++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/aihwkit/optim/analog_optimizer.py b/src/aihwkit/optim/analog_optimizer.py
index fcee5ef..d5192ca 100644
--- a/src/aihwkit/optim/analog_optimizer.py
+++ b/src/aihwkit/optim/analog_optimizer.py
@@ -7,9 +7,9 @@
 """Analog-aware inference optimizer."""
 
 from types import new_class
-from typing import Any, Callable, Dict, Optional, Type
+from typing import Any, Callable, Dict, List, Optional, Type
 
-from torch import cat
+from torch import cat, Tensor
 from torch.optim import Optimizer, SGD, Adam
 from torch.autograd import no_grad
 
@@ -74,6 +74,23 @@ class AnalogOptimizerMixin:
                 if isinstance(param, AnalogContext):
                     param.reset()
 
+    @staticmethod
+    def _join_batches(tensors: List[Tensor], trans: bool) -> Tensor:
+        """Join the accumulated tensors of a gradient trace along the batch.
+
+        Args:
+            tensors: traced tensors, possibly with differing batch dimensions
+            trans: whether the channel dimension is the first (instead of the last)
+
+        Returns:
+            Joined tensor
+        """
+        if len(tensors) > 1 and trans:
+            tensors = [tensor.reshape(tensor.size(0), -1) for tensor in tensors]
+        elif len(tensors) > 1:
+            tensors = [tensor.reshape(-1, tensor.size(-1)) for tensor in tensors]
+        return cat(tensors, axis=-1 if trans else 0)
+
     @no_grad()
     def step(self, closure: Optional[Callable] = None, **kwargs: Any) -> Optional[float]:
         """Perform an analog-aware single optimization step.
@@ -140,11 +157,9 @@ class AnalogOptimizerMixin:
                                 ),
                             )
                     else:
-                        x_input = cat(
-                            analog_ctx.analog_input, axis=-1 if analog_tile.in_trans else 0
-                        )
-                        d_input = cat(
-                            analog_ctx.analog_grad_output, axis=-1 if analog_tile.out_trans else 0
+                        x_input = self._join_batches(analog_ctx.analog_input, analog_tile.in_trans)
+                        d_input = self._join_batches(
+                            analog_ctx.analog_grad_output, analog_tile.out_trans
                         )
                         analog_tile.update(
                             x_input.to(analog_tile.device) if runtime.offload_input else x_input,
-- 
2.43.0


From be69cd758e7ae5be31d35ba6a1bc569a5c229374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:31 +0000
Subject: [PATCH 008/139] fix: the mapping scales of a tile do not alias the
 given tensor

---
 src/aihwkit/simulator/tiles/periphery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/periphery.py b/src/aihwkit/simulator/tiles/periphery.py
index a7216ba..162fbb8 100644
--- a/src/aihwkit/simulator/tiles/periphery.py
+++ b/src/aihwkit/simulator/tiles/periphery.py
@@ -528,7 +528,7 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
         elif isinstance(self.mapping_scales, Tensor) and len(mapping_scales) == 1:
             self.mapping_scales[:] = mapping_scales.to(self.device)
         else:
-            self.mapping_scales = mapping_scales.flatten().to(self.device)
+            self.mapping_scales = mapping_scales.flatten().to(self.device).clone()
 
         if getattr(self.rpu_config.mapping, "weight_scaling_lr_compensation", False):
             self.mapping_lr_scale = 1.0 / self.mapping_scales.mean().item()
-- 
2.43.0


From 398ba8bc37726b717c2fa190972b57aae320a5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:40 +0000
Subject: [PATCH 009/139] fix: a frozen analog tile does not trace gradients
 for the analog update

---
 src/aihwkit/simulator/tiles/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/functions.py b/src/aihwkit/simulator/tiles/functions.py
index 84938a8..b2bc167 100644
--- a/src/aihwkit/simulator/tiles/functions.py
+++ b/src/aihwkit/simulator/tiles/functions.py
@@ -100,7 +100,7 @@ class AnalogFunction(Function):
             else:
                 analog_tile.update(input_, grad_output)
             analog_tile.reset_delta_weights()
-        else:
+        elif ctx.needs_input_grad[0]:
             # Store activation and errors for optimizer (for analog training)
             analog_ctx.analog_input.append(input_)
 
-- 
2.43.0


From 507c784e374cf0d95b470776ccf38302852c026d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:28 +0000
Subject: [PATCH 010/139] fix: uniform random initial weights of the custom
 tile lie within the bounds

---
 src/aihwkit/simulator/tiles/custom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/custom.py b/src/aihwkit/simulator/tiles/custom.py
index 22c19b4..c30bf67 100644
--- a/src/aihwkit/simulator/tiles/custom.py
+++ b/src/aihwkit/simulator/tiles/custom.py
@@ -213,7 +213,7 @@ class CustomSimulatorTile(SimulatorTile, Module):
         """
         if bmin >= bmax:
             raise TileError("Bmin should be smaller than bmax")
-        self.set_weights(rand_like(self.get_weights()) / (bmax - bmin) - bmin)
+        self.set_weights(rand_like(self.get_weights()) * (bmax - bmin) + bmin)
 
     def get_meta_parameters(self) -> Any:
         """Returns meta parameters."""
-- 
2.43.0


From a1acc941701b870fa752f6318e8221125ad03a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:01 +0000
Subject: [PATCH 011/139] fix: indexed convolutions use the image layout of the
 traced forward pass for gradients

---
 src/aihwkit/optim/analog_optimizer.py    | 11 +++++++++--
 src/aihwkit/optim/context.py             |  3 +++
 src/aihwkit/simulator/tiles/functions.py | 13 +++++++++++++
 src/aihwkit/simulator/tiles/periphery.py |  1 +
 4 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/optim/analog_optimizer.py b/src/aihwkit/optim/analog_optimizer.py
index d5192ca..3d9a565 100644
--- a/src/aihwkit/optim/analog_optimizer.py
+++ b/src/aihwkit/optim/analog_optimizer.py
@@ -141,9 +141,14 @@ class AnalogOptimizerMixin:
 
                     runtime = analog_tile.get_runtime()
                     if analog_ctx.use_indexed:
-                        for x_input, d_input in zip(
-                            analog_ctx.analog_input, analog_ctx.analog_grad_output
+                        current_layout = analog_ctx.indexed_layout
+                        for x_input, d_input, layout in zip(
+                            analog_ctx.analog_input,
+                            analog_ctx.analog_grad_output,
+                            analog_ctx.analog_indexed_layout,
                         ):
+                            if layout is not analog_ctx.indexed_layout:
+                                analog_tile.set_indexed(*layout)
                             analog_tile.update_indexed(
                                 (
                                     x_input.to(analog_tile.device)
@@ -156,6 +161,8 @@ class AnalogOptimizerMixin:
                                     else d_input
                                 ),
                             )
+                        if current_layout is not analog_ctx.indexed_layout:
+                            analog_tile.set_indexed(*current_layout)
                     else:
                         x_input = self._join_batches(analog_ctx.analog_input, analog_tile.in_trans)
                         d_input = self._join_batches(
diff --git a/src/aihwkit/optim/context.py b/src/aihwkit/optim/context.py
index 0fc0b88..d4ee8ef 100644
--- a/src/aihwkit/optim/context.py
+++ b/src/aihwkit/optim/context.py
@@ -145,6 +145,8 @@ class AnalogContext(Parameter):
         self._data_buffer = None  # type: Optional[Tensor]
         self.analog_input = []  # type: list
         self.analog_grad_output = []  # type: list
+        self.indexed_layout = None  # type: Any
+        self.analog_indexed_layout = []  # type: list
         self.reset(analog_tile)
 
     @classmethod
@@ -426,6 +428,7 @@ class AnalogContext(Parameter):
 
         self.analog_input = []
         self.analog_grad_output = []
+        self.analog_indexed_layout = []
 
     def has_gradient(self) -> bool:
         """Return whether a gradient trace was stored."""
diff --git a/src/aihwkit/simulator/tiles/functions.py b/src/aihwkit/simulator/tiles/functions.py
index b2bc167..fc3ff97 100644
--- a/src/aihwkit/simulator/tiles/functions.py
+++ b/src/aihwkit/simulator/tiles/functions.py
@@ -51,6 +51,7 @@ class AnalogFunction(Function):
 
         # Invoke the forward pass in the tile instance.
         if use_indexed:
+            ctx.indexed_layout = analog_ctx.indexed_layout
             out = analog_tile.joint_forward_indexed(input_, is_test, ctx)
         else:
             out = analog_tile.joint_forward(input_, is_test, ctx)
@@ -79,6 +80,13 @@ class AnalogFunction(Function):
         shared_weights_grad = None
         use_indexed = analog_ctx.use_indexed
 
+        if use_indexed and ctx.indexed_layout is not analog_ctx.indexed_layout:
+            # Image sizes have changed since the forward pass
+            current_layout = analog_ctx.indexed_layout
+            analog_tile.set_indexed(*ctx.indexed_layout)
+        else:
+            current_layout = None
+
         if ctx.shared_weights is not None:
             analog_tile.ensure_shared_weights(ctx.shared_weights)
 
@@ -109,6 +117,11 @@ class AnalogFunction(Function):
             else:
                 store_gradients = grad_output
             analog_ctx.analog_grad_output.append(store_gradients)
+            if use_indexed:
+                analog_ctx.analog_indexed_layout.append(ctx.indexed_layout)
+
+        if current_layout is not None:
+            analog_tile.set_indexed(*current_layout)
 
         ctx.saved_analog_tensors = []
         return None, None, grad_input, shared_weights_grad, None
diff --git a/src/aihwkit/simulator/tiles/periphery.py b/src/aihwkit/simulator/tiles/periphery.py
index 162fbb8..af0e21e 100644
--- a/src/aihwkit/simulator/tiles/periphery.py
+++ b/src/aihwkit/simulator/tiles/periphery.py
@@ -1292,6 +1292,7 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
             raise TileError("Transposed indexed versions not supported (assumes NC(D)HW)")
         self.analog_ctx.set_indexed()
         self.image_sizes = image_sizes
+        self.analog_ctx.indexed_layout = (indices, image_sizes)
         self.tile.set_matrix_indices(indices)
 
     @no_grad()
-- 
2.43.0


From 6e05d2889c6b88141ed3475cfffdd53485724677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:18 +0000
Subject: [PATCH 012/139] fix: weight gradient compensation of the torch
 inference tile survives copies, loading and float scales

---
 .../simulator/tiles/inference_torch.py        | 45 ++++++++++++-------
 1 file changed, 30 insertions(+), 15 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/inference_torch.py b/src/aihwkit/simulator/tiles/inference_torch.py
index 305e6b6..5dee41e 100644
--- a/src/aihwkit/simulator/tiles/inference_torch.py
+++ b/src/aihwkit/simulator/tiles/inference_torch.py
@@ -79,6 +79,9 @@ class TorchInferenceTile(TileModule, InferenceTileWithPeriphery, SimulatorTileWr
     supports_indexed: bool = False
     supports_ddp: bool = True
 
+    # Not part of the state
+    _backward_hook_handle = None  # type: Optional[BackwardHook]
+
     def __init__(
         self,
         out_size: int,
@@ -111,7 +114,6 @@ class TorchInferenceTile(TileModule, InferenceTileWithPeriphery, SimulatorTileWr
         self._tile_input_grad_hook = None
         self._tile_input = None  # type: Tensor
         self._x_input_grad = None  # type: Tensor
-        self._backward_hook_handle = None  # type: BackwardHook
 
     def _create_simulator_tile(  # type: ignore
         self, x_size: int, d_size: int, rpu_config: "TorchInferenceRPUConfig"
@@ -160,26 +162,37 @@ class TorchInferenceTile(TileModule, InferenceTileWithPeriphery, SimulatorTileWr
             return False
         return True
 
-    def set_scales(self, scales: Tensor) -> None:
-        """Set all scales with a new scale.
-
-        This will set the mapping scales to ``scales`` and set all other scales to 1.
+    def _ensure_weight_hook(self) -> None:
+        """Make sure that the weight gradient is compensated for the mapping scales.
 
-        Args:
-            scales: scales to set.
+        The hook is not part of the state and thus needs to be registered
+        anew if the tile was copied or loaded.
         """
+        weight = self.tile.weight
+        if self.mapping_scales is None or not weight.requires_grad:
+            return
 
-        super().set_scales(scales)
-
-        # - Remove old hook
-        if self._backward_hook_handle is not None:
-            self._backward_hook_handle.remove()
+        handle = self._backward_hook_handle
+        # pylint: disable=protected-access
+        if handle is not None and handle.id in (weight._backward_hooks or {}):
+            return
 
         def hook(grad: Tensor) -> Tensor:
-            return grad / scales.to(grad.device).view(-1, 1) ** 2
+            if self.mapping_scales is None:
+                return grad
+            return grad / self.mapping_scales.to(grad.device).view(-1, 1) ** 2
 
-        if self.tile.weight.requires_grad:
-            self._backward_hook_handle = self.tile.register_weight_hook(hook)
+        self._backward_hook_handle = self.tile.register_weight_hook(hook)
+
+    def __getstate__(self) -> Dict:
+        state = super().__getstate__()
+        state.pop("_backward_hook_handle", None)
+        return state
+
+    def __setstate__(self, state: Dict) -> None:
+        state = state.copy()
+        state.pop("_backward_hook_handle", None)
+        super().__setstate__(state)
 
     def pre_forward(
         self, x_input: Tensor, dim: int, is_test: bool = False, ctx: Any = None
@@ -200,6 +213,8 @@ class TorchInferenceTile(TileModule, InferenceTileWithPeriphery, SimulatorTileWr
         """
 
         # pylint: disable=unused-argument
+        self._ensure_weight_hook()
+
         if self.input_range is not None:
             x_input = self.apply_input_range(x_input, not is_test)
 
-- 
2.43.0


From a7ef32dfca045f531cc607ab47ce912eb5274942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:58 +0000
Subject: [PATCH 013/139] fix: traced analog gradients do not alias tensors
 modified before the optimizer step

---
 src/aihwkit/simulator/tiles/functions.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/functions.py b/src/aihwkit/simulator/tiles/functions.py
index fc3ff97..5530d0f 100644
--- a/src/aihwkit/simulator/tiles/functions.py
+++ b/src/aihwkit/simulator/tiles/functions.py
@@ -110,12 +110,14 @@ class AnalogFunction(Function):
             analog_tile.reset_delta_weights()
         elif ctx.needs_input_grad[0]:
             # Store activation and errors for optimizer (for analog training)
-            analog_ctx.analog_input.append(input_)
+            # Note: need to copy since both might be modified in-place before the
+            # optimizer step (eg. shared with the gradient of a digital bias)
+            analog_ctx.analog_input.append(input_.clone())
 
             if runtime.offload_gradient:
-                store_gradients = grad_output.cpu()
+                store_gradients = grad_output.to("cpu", copy=True)
             else:
-                store_gradients = grad_output
+                store_gradients = grad_output.clone()
             analog_ctx.analog_grad_output.append(store_gradients)
             if use_indexed:
                 analog_ctx.analog_indexed_layout.append(ctx.indexed_layout)
-- 
2.43.0


From 798e554ada7377bdd01186368ce10096d7a75c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:11 +0000
Subject: [PATCH 014/139] fix: mixed precision update with only one of the two
 operands quantized

---
 src/rpucuda/rpu_mixedprec_device.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rpucuda/rpu_mixedprec_device.cpp b/src/rpucuda/rpu_mixedprec_device.cpp
index 117cf00..99ddf16 100644
--- a/src/rpucuda/rpu_mixedprec_device.cpp
+++ b/src/rpucuda/rpu_mixedprec_device.cpp
@@ -279,7 +279,7 @@ void MixedPrecRPUDevice<T>::doDirectVectorUpdate(
         d = RPU_ROUNDFUNF(d / d_width + stoch_value);
         d = MIN(MAX(d, -half_d_bins), half_d_bins) * d_width;
       }
-      qd_[i] = d;
+      qd_[j] = d;
     }
 
     RPU::math::ger<T>(
-- 
2.43.0


From 91866b013ff33269d2572d1466f168d77387be04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:42 +0000
Subject: [PATCH 015/139] fix: clipping keeps devices whose bounds exclude the
 clip range within their bounds

---
 src/rpucuda/rpu_pulsed_device.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rpucuda/rpu_pulsed_device.cpp b/src/rpucuda/rpu_pulsed_device.cpp
index bb4ae5c..44caa1a 100644
--- a/src/rpucuda/rpu_pulsed_device.cpp
+++ b/src/rpucuda/rpu_pulsed_device.cpp
@@ -459,8 +459,9 @@ template <typename T> void PulsedRPUDevice<T>::clipWeights(T **weights, T clip)
   } else {
     PRAGMA_SIMD
     for (int i = 0; i < this->size_; ++i) {
-      w[i] = MIN(w[i], MIN(max_bound[i], clip));
-      w[i] = MAX(w[i], MAX(min_bound[i], -clip));
+      w[i] = MAX(MIN(w[i], clip), -clip);
+      w[i] = MIN(w[i], max_bound[i]);
+      w[i] = MAX(w[i], min_bound[i]);
     }
   }
   applyUpdateWriteNoise(weights);
-- 
2.43.0


From bf9d93f5cb778b4c63f7d719ef3810f02256eeb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:42 +0000
Subject: [PATCH 016/139] fix: hidden devices of a fully hidden transfer
 compound follow set weights

---
 src/rpucuda/rpu_transfer_device.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rpucuda/rpu_transfer_device.cpp b/src/rpucuda/rpu_transfer_device.cpp
index db8c7fd..1672ba5 100644
--- a/src/rpucuda/rpu_transfer_device.cpp
+++ b/src/rpucuda/rpu_transfer_device.cpp
@@ -576,6 +576,9 @@ template <typename T> bool TransferRPUDevice<T>::onSetWeights(T **weights) {
   }
   if (fully_hidden_) {
     // no need to copy, as we directly use the weights
+    for (int k = 0; k < last_idx; k++) {
+      this->rpu_device_vec_[k]->onSetWeights(this->weights_vec_[k]);
+    }
     this->rpu_device_vec_[last_idx]->onSetWeights(weights);
 
   } else {
-- 
2.43.0


From 932246906496e4035e4931f4625470ea005ed62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:27 +0000
Subject: [PATCH 017/139] fix: loading and copying restore the hidden weights
 of compound and write noise devices

---
 src/aihwkit/simulator/tiles/base.py       |  3 +++
 src/rpucuda/rpu_mixedprec_device_base.cpp | 14 +++++++++++++-
 src/rpucuda/rpu_pulsed.cpp                | 17 +++++++++++++++++
 src/rpucuda/rpu_pulsed_device.cpp         |  4 +++-
 src/rpucuda/rpu_pulsed_device.h           |  4 +++-
 5 files changed, 39 insertions(+), 3 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/base.py b/src/aihwkit/simulator/tiles/base.py
index b39a084..af019e1 100644
--- a/src/aihwkit/simulator/tiles/base.py
+++ b/src/aihwkit/simulator/tiles/base.py
@@ -760,6 +760,9 @@ class SimulatorTileWrapper:
             if not isinstance(weights, Tensor):
                 weights = from_numpy(array(weights))
             self.tile.set_weights(weights)
+            # set_weights() resets hidden weights (e.g. of unit cells), thus
+            # need to restore them again.
+            self.tile.set_hidden_parameters(hidden_parameters)
             self._copy_weights_to_shared_tensors(weights)
 
             # set_weights() fills the fresh CPU C++ tile from the serialized raw
diff --git a/src/rpucuda/rpu_mixedprec_device_base.cpp b/src/rpucuda/rpu_mixedprec_device_base.cpp
index 3e94f35..cd5dfba 100644
--- a/src/rpucuda/rpu_mixedprec_device_base.cpp
+++ b/src/rpucuda/rpu_mixedprec_device_base.cpp
@@ -425,7 +425,19 @@ void MixedPrecRPUDeviceBase<T>::setDeviceParameter(
     T **out_weights, const std::vector<T *> &data_ptrs) {
 
   CHECK_RPU_DEVICE_INIT;
-  rpu_device_->setDeviceParameter(out_weights, data_ptrs);
+
+  std::vector<std::string> names;
+  getDPNames(names);
+
+  if (data_ptrs.size() < names.size()) {
+    RPU_FATAL("Expected " << names.size() << " data pointers!");
+  }
+
+  std::vector<T *> v(data_ptrs.begin(), data_ptrs.begin() + (names.size() - 1));
+  rpu_device_->setDeviceParameter(out_weights, v);
+
+  // "hidden weights Chi"
+  setChi(data_ptrs[names.size() - 1]);
 };
 
 template <typename T> void MixedPrecRPUDeviceBase<T>::printDP(int x_count, int d_count) const {
diff --git a/src/rpucuda/rpu_pulsed.cpp b/src/rpucuda/rpu_pulsed.cpp
index 7d575b6..4a55552 100644
--- a/src/rpucuda/rpu_pulsed.cpp
+++ b/src/rpucuda/rpu_pulsed.cpp
@@ -440,6 +440,14 @@ template <typename T> void RPUPulsed<T>::dumpExtra(RPU::state_t &extra, const st
   fb_pass_->dumpExtra(state, "fb_pass");
   rpu_device_->dumpExtra(state, "rpu_device");
 
+  if (rpu_device_->getHiddenWeightsCount() > 0) {
+    // setting the weights would not restore them exactly (e.g. re-draws the write noise)
+    int size = this->x_size_ * this->d_size_;
+    std::vector<T> w(size);
+    RPU::math::copy<T>(size, this->getWeightsPtr()[0], 1, w.data(), 1);
+    RPU::insert(state, "weights", w);
+  }
+
   RPU::insertWithPrefix(extra, state, prefix);
 }
 
@@ -453,6 +461,15 @@ void RPUPulsed<T>::loadExtra(const RPU::state_t &extra, const std::string prefix
   pwu_->loadExtra(state, "pwu", strict);
   fb_pass_->loadExtra(state, "fb_pass", strict);
   rpu_device_->loadExtra(state, "rpu_device", strict);
+
+  if (rpu_device_->getHiddenWeightsCount() > 0 && state.count("weights")) {
+    int size = this->x_size_ * this->d_size_;
+    std::vector<T> w;
+    RPU::load(state, "weights", w, strict);
+    if (w.size() == (size_t)size) {
+      RPU::math::copy<T>(size, w.data(), 1, this->getWeightsPtr()[0], 1);
+    }
+  }
 }
 
 /*********************************************************************************/
diff --git a/src/rpucuda/rpu_pulsed_device.cpp b/src/rpucuda/rpu_pulsed_device.cpp
index 44caa1a..b1bfce5 100644
--- a/src/rpucuda/rpu_pulsed_device.cpp
+++ b/src/rpucuda/rpu_pulsed_device.cpp
@@ -334,7 +334,9 @@ void PulsedRPUDevice<T>::setDeviceParameter(T **out_weights, const std::vector<T
   }
 
   // update the weights according to the bounds
-  this->onSetWeights(out_weights);
+  if (!getPar().usesPersistentWeight()) { // persistent weights are given explicitly otherwise
+    this->onSetWeights(out_weights);
+  }
 };
 
 template <typename T> int PulsedRPUDevice<T>::getHiddenWeightsCount() const {
diff --git a/src/rpucuda/rpu_pulsed_device.h b/src/rpucuda/rpu_pulsed_device.h
index dfcc270..137c7a4 100644
--- a/src/rpucuda/rpu_pulsed_device.h
+++ b/src/rpucuda/rpu_pulsed_device.h
@@ -412,7 +412,9 @@ public:
     std::vector<std::string> names;                                                                \
     PulsedRPUDevice<T>::getDPNames(names);                                                         \
     {V2DP_BODY};                                                                                   \
-    this->onSetWeights(out_weights);                                                               \
+    if (!this->getPar().usesPersistentWeight()) {                                                  \
+      this->onSetWeights(out_weights);                                                             \
+    }                                                                                              \
   }
 
 #define BUILD_PULSED_DEVICE_META_PARAMETER(                                                        \
-- 
2.43.0


From 8edec57584f2be499ee1e9cefca6cbd0127d22c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:24 +0000
Subject: [PATCH 018/139] fix: buffer sizes of buffered row-wise transfer

---
 src/rpucuda/rpu_buffered_transfer_device.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rpucuda/rpu_buffered_transfer_device.cpp b/src/rpucuda/rpu_buffered_transfer_device.cpp
index 4e71de7..47e9876 100644
--- a/src/rpucuda/rpu_buffered_transfer_device.cpp
+++ b/src/rpucuda/rpu_buffered_transfer_device.cpp
@@ -109,7 +109,7 @@ template <typename T>
 BufferedTransferRPUDevice<T> &
 BufferedTransferRPUDevice<T>::operator=(BufferedTransferRPUDevice<T> &&other) noexcept {
   TransferRPUDevice<T>::operator=(std::move(other));
-  transfer_buffer_vec_ = std::move(transfer_buffer_vec_);
+  transfer_buffer_vec_ = std::move(other.transfer_buffer_vec_);
 
   return *this;
 }
@@ -156,10 +156,10 @@ void BufferedTransferRPUDevice<T>::readAndUpdate(
     return;
   }
 
-  this->transfer_tmp_.resize(this->d_size_);
   const auto &par = getPar();
   int in_size = par.getInSize();
   int out_size = par.getOutSize();
+  this->transfer_tmp_.resize(out_size);
 
   T weight_granularity = this->rpu_device_vec_[to_device_idx]->getWeightGranularity();
   T buffer_granularity = par.thres_scale * weight_granularity;
-- 
2.43.0


From 77f8535d5dff617566501b9a341a5d4124f410ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:31 +0000
Subject: [PATCH 019/139] fix: querying the learning rate of tiles without one
 of their own

---
 src/aihwkit/simulator/tiles/periphery.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/periphery.py b/src/aihwkit/simulator/tiles/periphery.py
index af0e21e..d5403a0 100644
--- a/src/aihwkit/simulator/tiles/periphery.py
+++ b/src/aihwkit/simulator/tiles/periphery.py
@@ -1407,10 +1407,14 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
         if learning_rate is not None:
             self.tile.set_learning_rate(learning_rate * self.mapping_lr_scale)
 
-    def get_learning_rate(self) -> float:
+    def get_learning_rate(self) -> Optional[float]:  # type: ignore
         """Return the tile learning rate.
 
         Returns:
-            float: the tile learning rate.
+            float: the tile learning rate or None if the tile has no
+            learning rate of its own.
         """
-        return self.tile.get_learning_rate() / self.mapping_lr_scale
+        learning_rate = self.tile.get_learning_rate()
+        if learning_rate is None:
+            return None
+        return learning_rate / self.mapping_lr_scale
-- 
2.43.0


From 76d99c85a8d24574e0e8a393eb007a7380fa93de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:31 +0000
Subject: [PATCH 020/139] fix: loading a state does not share the rpu_config
 with the saved tile

---
 src/aihwkit/simulator/tiles/module.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aihwkit/simulator/tiles/module.py b/src/aihwkit/simulator/tiles/module.py
index 7f94187..581b5ac 100644
--- a/src/aihwkit/simulator/tiles/module.py
+++ b/src/aihwkit/simulator/tiles/module.py
@@ -424,4 +424,7 @@ class TileModule(Module, TileModuleBase):
                 raise TileModuleError(msg)
 
             analog_state["rpu_config"] = analog_tile.rpu_config
+        else:
+            # not to be shared with the tile that was saved
+            analog_state["rpu_config"] = deepcopy(analog_state["rpu_config"])
         analog_tile.__setstate__(analog_state)
-- 
2.43.0


From 3ececebeb0c8d7ecee7860856e4e4fafa4dd8fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:31 +0000
Subject: [PATCH 021/139] fix: loaded or set weights are not replaced by
 previously programmed weights

---
 src/aihwkit/simulator/tiles/inference.py | 17 +++++++++++++++++
 src/aihwkit/simulator/tiles/module.py    | 10 ++++++++++
 src/aihwkit/simulator/tiles/periphery.py |  9 ++++++++-
 3 files changed, 35 insertions(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/inference.py b/src/aihwkit/simulator/tiles/inference.py
index ccc5c4a..bf8b27a 100644
--- a/src/aihwkit/simulator/tiles/inference.py
+++ b/src/aihwkit/simulator/tiles/inference.py
@@ -101,6 +101,22 @@ class InferenceTileWithPeriphery(TileWithPeriphery):
             )
             self.set_mapping_scales(mapping_scales)
 
+    def reset_reference_weights(self) -> None:
+        """Forget the reference weights as well as the programmed state derived from them."""
+        super().reset_reference_weights()
+        self.programmed_weights = None
+        self.drift_noise_parameters = None
+        self.drift_baseline = None
+        self.drift_readout_tensor = None
+        self._reset_alpha()
+
+    def _reset_alpha(self) -> None:
+        """Reset the drift compensation."""
+        if isinstance(self, Module):
+            # somehow legacy is incompatible with torch buffers
+            self.__dict__.pop("alpha", None)
+        self.alpha = ones((1,), dtype=self.get_dtype(), device=self.device)
+
     @no_grad()
     def _forward_drift_readout_tensor(
         self, reset_if: bool = False, exact_reference: bool = False
@@ -208,6 +224,7 @@ class InferenceTileWithPeriphery(TileWithPeriphery):
         )
 
         self.tile.set_weights(self.programmed_weights)
+        self._reset_alpha()
 
         if (
             hasattr(self.rpu_config, "drift_compensation")
diff --git a/src/aihwkit/simulator/tiles/module.py b/src/aihwkit/simulator/tiles/module.py
index 581b5ac..f0894d3 100644
--- a/src/aihwkit/simulator/tiles/module.py
+++ b/src/aihwkit/simulator/tiles/module.py
@@ -428,3 +428,13 @@ class TileModule(Module, TileModuleBase):
             # not to be shared with the tile that was saved
             analog_state["rpu_config"] = deepcopy(analog_state["rpu_config"])
         analog_tile.__setstate__(analog_state)
+
+        # the loaded weights are not the ones previously programmed
+        if hasattr(analog_tile, "reset_reference_weights"):
+            analog_tile.reset_reference_weights()
+
+        # the shape of the drift compensation depends on whether it was applied
+        alpha = state_dict.get(prefix + "alpha", None)
+        if isinstance(alpha, Tensor) and isinstance(getattr(analog_tile, "alpha", None), Tensor):
+            if alpha.shape != analog_tile.alpha.shape:
+                analog_tile.alpha = analog_tile.alpha.new_ones(alpha.shape)
diff --git a/src/aihwkit/simulator/tiles/periphery.py b/src/aihwkit/simulator/tiles/periphery.py
index d5403a0..a988efd 100644
--- a/src/aihwkit/simulator/tiles/periphery.py
+++ b/src/aihwkit/simulator/tiles/periphery.py
@@ -152,7 +152,7 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
                 the mapping field.
 
         """
-        self.reference_combined_weights = None
+        self.reset_reference_weights()
 
         if bias is not None and self.digital_bias:
             if not isinstance(bias, Tensor):
@@ -241,6 +241,13 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
             return (weight * alpha.view(-1, 1), bias * alpha if self.analog_bias else bias)
         return weight, bias
 
+    def reset_reference_weights(self) -> None:
+        """Forget the reference weights for (re-)programming.
+
+        Called when the weights are explicitly set or loaded.
+        """
+        self.reference_combined_weights = None
+
     @no_grad()
     def program_weights(
         self,
-- 
2.43.0


From 32663f85b1ead57362a00e5c2c5d25f27d9b5bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:17 +0000
Subject: [PATCH 022/139] fix: step of the power-step reference device outside
 of its bounds is not NaN

---
 src/rpucuda/rpu_powstep_reference_device.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rpucuda/rpu_powstep_reference_device.cpp b/src/rpucuda/rpu_powstep_reference_device.cpp
index 2d5fec6..9f21cfd 100644
--- a/src/rpucuda/rpu_powstep_reference_device.cpp
+++ b/src/rpucuda/rpu_powstep_reference_device.cpp
@@ -131,13 +131,13 @@ inline void update_once_reference(
   if (range == (T)0.0) {
     return;
   }
-  w += ref; // first add
+  w += ref; // first add (might be (slightly) outside of the bounds)
 
   if (sign > 0) {
-    w -= scale_down * (T)powf((w - min_bound) / range, gamma_down) *
+    w -= scale_down * (T)powf(MAX((w - min_bound) / range, (T)0.0), gamma_down) *
          ((T)1.0 + dw_min_std * rng->sampleGauss());
   } else {
-    w += scale_up * (T)powf((max_bound - w) / range, gamma_up) *
+    w += scale_up * (T)powf(MAX((max_bound - w) / range, (T)0.0), gamma_up) *
          ((T)1.0 + dw_min_std * rng->sampleGauss());
   }
   w = MAX(w, min_bound);
-- 
2.43.0


From 0e49845e87730042536e35e0126fc1bf05a97926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:17 +0000
Subject: [PATCH 023/139] fix: weight granularity of the exponential step
 device averages up and down steps

---
 src/rpucuda/rpu_expstep_device.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rpucuda/rpu_expstep_device.h b/src/rpucuda/rpu_expstep_device.h
index 623f374..1f35bc6 100644
--- a/src/rpucuda/rpu_expstep_device.h
+++ b/src/rpucuda/rpu_expstep_device.h
@@ -50,7 +50,7 @@ BUILD_PULSED_DEVICE_META_PARAMETER(
     T z = (T)2.0 * w / (this->w_max - this->w_min) * es_a + es_b;
     T dw_down = scale_down * MAX((T)1.0 - (T)es_A_down * (T)expf((es_gamma_down * (-z))), (T)0.0);
     T dw_up = scale_up * MAX((T)1.0 - (T)es_A_up * (T)expf((es_gamma_up * z)), (T)0.0);
-    T weight_granularity = MAX((dw_down + dw_down) / (T)2.0, (T)0.0);
+    T weight_granularity = MAX((dw_up + dw_down) / (T)2.0, (T)0.0);
     return weight_granularity > (T)0.0 ? weight_granularity : this->dw_min;
     ,
     /*add */
-- 
2.43.0


From 3166c44235c5638c7566858a201719e74deb5125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:09 +0000
Subject: [PATCH 024/139] fix: negative learning rates negate updates with
 deterministic pulse trains

---
 src/rpucuda/dense_bit_line_maker.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/rpucuda/dense_bit_line_maker.cpp b/src/rpucuda/dense_bit_line_maker.cpp
index c66f0be..a80d175 100644
--- a/src/rpucuda/dense_bit_line_maker.cpp
+++ b/src/rpucuda/dense_bit_line_maker.cpp
@@ -280,6 +280,8 @@ int *DenseBitLineMaker<T>::makeCoincidences(
   T A = 0;
   T B = 0;
   int BL = 0;
+  // sign of the lr only enters once (with d), since it is multiplied with the outer product
+  const T x_sign = (T)1.0;
   // negative lr allowed in the below, thus (T)fabsf(lr)
   if (up.update_bl_management || up.update_management) {
 
@@ -302,7 +304,7 @@ int *DenseBitLineMaker<T>::makeCoincidences(
   case PulseType::MeanCount:
     // x counts
     generateCountsMean(
-        x_counts_, x_in, x_inc, x_size_, x_noz, B, rng, BL, up.res, up.sto_round, lr);
+        x_counts_, x_in, x_inc, x_size_, x_noz, B, rng, BL, up.res, up.sto_round, x_sign);
     // d counts
     generateCountsMean(
         d_counts_, d_in, d_inc, d_size_, d_noz, A, rng, BL, up.res, up.sto_round, lr);
@@ -315,7 +317,8 @@ int *DenseBitLineMaker<T>::makeCoincidences(
 
     // x counts
     generateDetImplicit(
-        x_values_, x_in, x_inc, x_size_, x_noz, B, rng, BL, up.x_res_implicit, up.sto_round, lr);
+        x_values_, x_in, x_inc, x_size_, x_noz, B, rng, BL, up.x_res_implicit, up.sto_round,
+        x_sign);
 
     // d counts
     generateDetImplicit(
-- 
2.43.0


From 9e77577dd0a723a278817b292f168e7b9438e31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:09 +0000
Subject: [PATCH 025/139] fix: transfer reset does not erase columns still to
 be read

---
 src/rpucuda/rpu_transfer_device.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rpucuda/rpu_transfer_device.cpp b/src/rpucuda/rpu_transfer_device.cpp
index 1672ba5..a0a61a5 100644
--- a/src/rpucuda/rpu_transfer_device.cpp
+++ b/src/rpucuda/rpu_transfer_device.cpp
@@ -466,7 +466,9 @@ void TransferRPUDevice<T>::readAndUpdate(
       // potentially reset here (because of possible same device to-from):
       // NOTE that with_reset_prob is COL-wise prob (elem device prob is 1)
       T **W_from = getDeviceWeights(from_device_idx);
-      this->rpu_device_vec_[from_device_idx]->resetCols(W_from, i_slice, n_vec, 1, this->rw_rng_);
+      // only the one just read, since the others of the chunk are still to be read
+      this->rpu_device_vec_[from_device_idx]->resetCols(
+          W_from, i_slice + (int)i, 1, 1, this->rw_rng_);
     }
 
     // update according to device
-- 
2.43.0


From 6db1da6e4eb9935455dc7c9ecfa68651db95466e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:09 +0000
Subject: [PATCH 026/139] fix: choppers of the right rows and columns in the
 reduction to the weight

---
 src/rpucuda/rpu_chopped_transfer_device.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/rpucuda/rpu_chopped_transfer_device.cpp b/src/rpucuda/rpu_chopped_transfer_device.cpp
index 6db1e4e..81d5e32 100644
--- a/src/rpucuda/rpu_chopped_transfer_device.cpp
+++ b/src/rpucuda/rpu_chopped_transfer_device.cpp
@@ -545,11 +545,14 @@ void ChoppedTransferRPUDevice<T>::reduceToWeights(T **weights) const {
   T *A = *this->weights_vec_[0];
   int size = this->x_size_ * this->d_size_;
 
-  // Layout: W[x_idx * d_size + d_idx] (column-major, d as inner dimension)
+  // Layout: W[d_idx * x_size + x_idx] (row-major). The in-chopper is along x
+  // when transferring columns and along d otherwise.
   for (int idx = 0; idx < size; idx++) {
-    int d_idx = idx % this->d_size_;
-    int x_idx = idx / this->d_size_;
-    T chop = (in_chopper_[x_idx] != out_chopper_[d_idx]) ? (T)-1.0 : (T)1.0;
+    int d_idx = idx / this->x_size_;
+    int x_idx = idx % this->x_size_;
+    int in_idx = par.transfer_columns ? x_idx : d_idx;
+    int out_idx = par.transfer_columns ? d_idx : x_idx;
+    T chop = (in_chopper_[in_idx] != out_chopper_[out_idx]) ? (T)-1.0 : (T)1.0;
     weights[0][idx] += gamma * (chop - (T)1.0) * A[idx];
   }
 }
-- 
2.43.0


From 2708d82a3b3dcda6b2c7dfe1f02f150ae6865953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:09 +0000
Subject: [PATCH 027/139] fix: weight granularity of transfer devices is that
 of the fast device

---
 src/rpucuda/rpu_transfer_device.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rpucuda/rpu_transfer_device.cpp b/src/rpucuda/rpu_transfer_device.cpp
index a0a61a5..0d6a543 100644
--- a/src/rpucuda/rpu_transfer_device.cpp
+++ b/src/rpucuda/rpu_transfer_device.cpp
@@ -354,6 +354,9 @@ void TransferRPUDevice<T>::populate(
   setTransferVecs();
   transfer_every_ = par.transfer_every_vec; // already checked for length
   fully_hidden_ = getPar().fullyHidden();   // save
+
+  // the gradient is written onto the first (fast) device only
+  this->setWeightGranularity(this->rpu_device_vec_[0]->getWeightGranularity());
 }
 
 /*********************************************************************************/
@@ -667,6 +670,7 @@ void TransferRPUDevice<T>::getDeviceParameter(T **weights, std::vector<T *> &dat
 template <typename T>
 void TransferRPUDevice<T>::setDeviceParameter(T **out_weights, const std::vector<T *> &data_ptrs) {
   VectorRPUDevice<T>::setDeviceParameter(out_weights, data_ptrs);
+  this->setWeightGranularity(this->rpu_device_vec_[0]->getWeightGranularity());
 
   if (fully_hidden_) {
     // weight might have changed because of hidden weight change
-- 
2.43.0


From 930b0249c6cb4464f642550319936dbbcafdb60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:16 +0000
Subject: [PATCH 028/139] fix: update resolutions given as number of steps are
 converted

---
 src/rpucuda/rpu_pulsed_meta_parameter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rpucuda/rpu_pulsed_meta_parameter.cpp b/src/rpucuda/rpu_pulsed_meta_parameter.cpp
index 8bff996..a0b9590 100644
--- a/src/rpucuda/rpu_pulsed_meta_parameter.cpp
+++ b/src/rpucuda/rpu_pulsed_meta_parameter.cpp
@@ -139,9 +139,9 @@ template <typename T> void PulsedUpdateMetaParameter<T>::initialize() {
     // always turn on UM for UBL management
     update_management = update_management || update_bl_management;
 
-    detail::checkRes(res);
-    detail::checkRes(x_res_implicit);
-    detail::checkRes(d_res_implicit);
+    res = detail::checkRes(res);
+    x_res_implicit = detail::checkRes(x_res_implicit);
+    d_res_implicit = detail::checkRes(d_res_implicit);
   }
 
   if (_currently_tuning) {
-- 
2.43.0


From 639f149cf156665135f78826653636da965bc3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:16 +0000
Subject: [PATCH 029/139] fix: a clipped positive output is not forgotten in
 the bound test

---
 src/rpucuda/rpu_forward_backward_pass.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rpucuda/rpu_forward_backward_pass.cpp b/src/rpucuda/rpu_forward_backward_pass.cpp
index 329d62b..bbaee99 100644
--- a/src/rpucuda/rpu_forward_backward_pass.cpp
+++ b/src/rpucuda/rpu_forward_backward_pass.cpp
@@ -705,7 +705,7 @@ inline bool finalizeOutputImplStage5(ARGS) {
         bound_test_passed = false;
       } else if (value < -bound) {
         value = -bound;
-        bound_test_passed = !io.bm_test_negative_bound;
+        bound_test_passed = bound_test_passed && !io.bm_test_negative_bound;
       }
     } else {
       value = value > bound ? bound : value;
-- 
2.43.0


From d78c1aba36744e09c9667df88c26863cd6623612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:16 +0000
Subject: [PATCH 030/139] fix: negative output asymmetry is applied

---
 src/rpucuda/rpu_forward_backward_pass.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rpucuda/rpu_forward_backward_pass.cpp b/src/rpucuda/rpu_forward_backward_pass.cpp
index bbaee99..bfee2c3 100644
--- a/src/rpucuda/rpu_forward_backward_pass.cpp
+++ b/src/rpucuda/rpu_forward_backward_pass.cpp
@@ -766,7 +766,7 @@ bool ForwardBackwardPassIOManaged<T>::finalizeOutput(
     const MVParameter<T> &mv_pars,
     const IOMetaParameter<T> &io) {
 
-  if (io.out_asymmetry > (T)0.0) {
+  if (io.out_asymmetry != (T)0.0) {
     return finalizeOutputImplStage1<T, true>(out_values, out_size, out_inc, mv_pars, io, rng_);
   } else {
     return finalizeOutputImplStage1<T, false>(out_values, out_size, out_inc, mv_pars, io, rng_);
-- 
2.43.0


From 5cef22ed2686ef857b1e942eb1851ac16facc1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:16 +0000
Subject: [PATCH 031/139] fix: inputs without positive values are not dropped
 with noise management MAX

---
 src/aihwkit/simulator/tiles/analog_mvm.py |  2 +-
 src/rpucuda/rpu_forward_backward_pass.cpp | 16 +++++++++++++---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/analog_mvm.py b/src/aihwkit/simulator/tiles/analog_mvm.py
index b05932e..b1c3fc5 100644
--- a/src/aihwkit/simulator/tiles/analog_mvm.py
+++ b/src/aihwkit/simulator/tiles/analog_mvm.py
@@ -82,7 +82,7 @@ class AnalogMVM:
         if (
             io_pars.inp_noise <= 0.0
             and isinstance(nm_scale_values, Tensor)
-            and (nm_scale_values == 0.0).all()
+            and (input_ == 0.0).all()
         ):
             # - Shortcut, output would be all zeros
             return zeros(size=out_size, device=input_.device, dtype=input_.dtype)
diff --git a/src/rpucuda/rpu_forward_backward_pass.cpp b/src/rpucuda/rpu_forward_backward_pass.cpp
index bfee2c3..710d05a 100644
--- a/src/rpucuda/rpu_forward_backward_pass.cpp
+++ b/src/rpucuda/rpu_forward_backward_pass.cpp
@@ -109,6 +109,11 @@ template class ForwardBackwardPass<half_t>;
 /**********************************************/
 /* noise management                          */
 
+template <typename T> inline bool isAllZero(const T *input, const int size, const int inc) {
+  int max_index = RPU::math::iamax<T>(size, input, inc);
+  return input[max_index * inc] == (T)0.0;
+}
+
 template <typename T>
 inline T computeNoiseManagement(
     const T *input,
@@ -921,7 +926,8 @@ void ForwardBackwardPassIOManaged<T>::forwardVector(
   bool nm = f_io_.noise_management != NoiseManagementType::None;
   bool bm = f_io_.bound_management != BoundManagementType::None;
 
-  if (nm && (nm_scale_value <= (T)0.0) && (f_io_.inp_noise <= (T)0.0)) {
+  if (nm && (nm_scale_value <= (T)0.0) && (f_io_.inp_noise <= (T)0.0) &&
+      isAllZero(x_input, this->x_size_, x_inc)) {
     // short cut. output will be zero anyway
     int i_d = 0;
     PRAGMA_SIMD
@@ -1006,8 +1012,8 @@ void ForwardBackwardPassIOManaged<T>::backwardVector(
   T out_scale = b_io_.out_scale * alpha;
   bool scaling = nm && nm_scale_value > (T)0.0;
 
-  if (nm && (nm_scale_value <= (T)0.0)) {
-    // max is zero. output is just zero. short-cut
+  if (nm && (nm_scale_value <= (T)0.0) && isAllZero(d_input, this->d_size_, d_inc)) {
+    // input is zero. output is just zero. short-cut
     int j_x = 0;
     PRAGMA_SIMD
     for (int j = 0; j < this->x_size_; j++) {
@@ -1017,6 +1023,10 @@ void ForwardBackwardPassIOManaged<T>::backwardVector(
     return;
   }
 
+  if (!scaling) {
+    nm_scale_value = (T)1.0;
+  }
+
   computeAnalogMV(
       weights, d_input, this->d_size_, d_inc, x_output, this->x_size_, x_inc,
       (T)1.0 / nm_scale_value, scaling, this->fb_pars_.bwd, b_io_, true, false);
-- 
2.43.0


From 80de3f5e3cea031cf6959039548b89b9c79167cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:30 +0000
Subject: [PATCH 032/139] fix: forward and backward pass keep their own noise
 management average

---
 src/rpucuda/rpu_forward_backward_pass.cpp | 8 +++++++-
 src/rpucuda/rpu_forward_backward_pass.h   | 3 +++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/rpucuda/rpu_forward_backward_pass.cpp b/src/rpucuda/rpu_forward_backward_pass.cpp
index 710d05a..9d4985d 100644
--- a/src/rpucuda/rpu_forward_backward_pass.cpp
+++ b/src/rpucuda/rpu_forward_backward_pass.cpp
@@ -209,6 +209,8 @@ ForwardBackwardPassIOManaged<T>::ForwardBackwardPassIOManaged(
 
   f_io_ = other.f_io_;
   b_io_ = other.b_io_;
+  aux_nm_value_ = other.aux_nm_value_;
+  aux_nm_value_bwd_ = other.aux_nm_value_bwd_;
   checked_implemented_ = other.checked_implemented_;
   rng_ = other.rng_;
 }
@@ -239,6 +241,8 @@ ForwardBackwardPassIOManaged<T>::operator=(ForwardBackwardPassIOManaged<T> &&oth
 
   f_io_ = other.f_io_;
   b_io_ = other.b_io_;
+  aux_nm_value_ = other.aux_nm_value_;
+  aux_nm_value_bwd_ = other.aux_nm_value_bwd_;
   checked_implemented_ = other.checked_implemented_;
   rng_ = std::move(other.rng_);
 
@@ -1007,7 +1011,7 @@ void ForwardBackwardPassIOManaged<T>::backwardVector(
   // io managed version
   b_io_.bound_management = BoundManagementType::None; // not supported
   T nm_scale_value = computeNoiseManagement(
-      d_input, this->d_size_, d_inc, b_io_.noise_management, aux_nm_value_, b_io_);
+      d_input, this->d_size_, d_inc, b_io_.noise_management, aux_nm_value_bwd_, b_io_);
   bool nm = b_io_.noise_management != NoiseManagementType::None;
   T out_scale = b_io_.out_scale * alpha;
   bool scaling = nm && nm_scale_value > (T)0.0;
@@ -1044,6 +1048,7 @@ void ForwardBackwardPassIOManaged<T>::dumpExtra(RPU::state_t &extra, const std::
 
   RPU::state_t state;
   RPU::insert(state, "aux_nm_value", aux_nm_value_);
+  RPU::insert(state, "aux_nm_value_bwd", aux_nm_value_bwd_);
   RPU::insertWithPrefix(extra, state, prefix);
 }
 
@@ -1055,6 +1060,7 @@ void ForwardBackwardPassIOManaged<T>::loadExtra(
 
   auto state = RPU::selectWithPrefix(extra, prefix);
   RPU::load(state, "aux_nm_value", aux_nm_value_, strict);
+  RPU::load(state, "aux_nm_value_bwd", aux_nm_value_bwd_, false); // not in older states
 }
 
 template class ForwardBackwardPassIOManaged<float>;
diff --git a/src/rpucuda/rpu_forward_backward_pass.h b/src/rpucuda/rpu_forward_backward_pass.h
index e4bb949..9a00260 100644
--- a/src/rpucuda/rpu_forward_backward_pass.h
+++ b/src/rpucuda/rpu_forward_backward_pass.h
@@ -105,6 +105,8 @@ public:
     swap(static_cast<ForwardBackwardPass<T> &>(a), static_cast<ForwardBackwardPass<T> &>(b));
     swap(a.f_io_, b.f_io_);
     swap(a.b_io_, b.b_io_);
+    swap(a.aux_nm_value_, b.aux_nm_value_);
+    swap(a.aux_nm_value_bwd_, b.aux_nm_value_bwd_);
     swap(a.checked_implemented_, b.checked_implemented_);
     swap(a.rng_, b.rng_);
 
@@ -239,6 +241,7 @@ private:
   T **neg_weights_ = nullptr;
 
   T aux_nm_value_ = -1.0;
+  T aux_nm_value_bwd_ = -1.0;
   IOMetaParameter<T> f_io_;
   IOMetaParameter<T> b_io_;
   bool checked_implemented_ = false;
-- 
2.43.0


From 69d69f66d95d36003b8f86cb816e71d95c855295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:51 +0000
Subject: [PATCH 033/139] fix: bound management of the torch tile treats each
 input vector on its own

---
 src/aihwkit/simulator/tiles/analog_mvm.py | 26 +++++++++++------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/analog_mvm.py b/src/aihwkit/simulator/tiles/analog_mvm.py
index b1c3fc5..62648af 100644
--- a/src/aihwkit/simulator/tiles/analog_mvm.py
+++ b/src/aihwkit/simulator/tiles/analog_mvm.py
@@ -9,7 +9,7 @@
 from typing import Union, Any, Optional
 from numbers import Number
 
-from torch import Tensor, zeros, randn_like, clamp, bmm
+from torch import Tensor, zeros, randn_like, clamp, bmm, where
 from torch.autograd import no_grad
 
 from aihwkit.exceptions import ConfigError
@@ -115,8 +115,8 @@ class AnalogMVM:
                 output *= out_scale / scale
             return output
 
-        # with bound management
-        bound_test_passed = False
+        # with bound management (decided for each of the input vectors)
+        result, done = None, False
         reduction_due_to_bound_management = 0.5
 
         inp_res = io_pars.inp_res
@@ -125,8 +125,7 @@ class AnalogMVM:
             inp_res *= 2.0 * io_pars.inp_bound
 
         bm_round = 0
-        while not bound_test_passed:
-            bound_test_passed = True
+        while result is None or not done.all():
             reduction_due_to_bound_management *= 2.0
 
             bm_round += 1
@@ -153,18 +152,19 @@ class AnalogMVM:
                 **fwd_pars,
             )
 
-            bound_test_passed = bound_test_passed or (
+            # - Final scaling
+            if scaling or out_scale != 1.0:
+                output *= out_scale / scale
+            result = output if result is None else where(done, result, output)
+
+            done = done | bound_test_passed | (
                 (reduction_due_to_bound_management > io_pars.max_bm_factor)
                 or (
                     (inp_res > 0.0)
                     and (reduction_due_to_bound_management > io_pars.max_bm_res / inp_res)
                 )
             )
-
-        # - Final scaling
-        if scaling or out_scale != 1.0:
-            output *= out_scale / scale
-        return output
+        return result
 
     @classmethod
     def _compute_analog_mv(
@@ -247,7 +247,7 @@ class AnalogMVM:
         """
         # pylint: disable=unused-argument
 
-        bound_test_passed = True
+        bound_test_passed: Union[bool, Tensor] = True
         bound = io_pars.out_bound if io_pars.out_bound > 0 else float("inf")
         asymmetry_scale = 1.0 - io_pars.out_asymmetry
         res = io_pars.out_res
@@ -267,7 +267,7 @@ class AnalogMVM:
             out_values = UniformQuantize.apply(
                 out_values, res, io_pars.out_bound, io_pars.out_sto_round
             )
-        not_clipping = ((out_values <= bound) & (out_values >= -bound)).all()
+        not_clipping = ((out_values <= bound) & (out_values >= -bound)).all(dim=-1, keepdim=True)
         out_values = clamp(out_values, min=-bound, max=bound)
         if io_pars.bound_management != BoundManagementType.NONE:
             bound_test_passed = not_clipping
-- 
2.43.0


From 520b31def5c89e395c33f45c2c1df4b6f611ea43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:51 +0000
Subject: [PATCH 034/139] fix: no discretization without bound in the torch
 tile (was NaN)

---
 src/aihwkit/simulator/tiles/analog_mvm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/analog_mvm.py b/src/aihwkit/simulator/tiles/analog_mvm.py
index 62648af..d9cfe55 100644
--- a/src/aihwkit/simulator/tiles/analog_mvm.py
+++ b/src/aihwkit/simulator/tiles/analog_mvm.py
@@ -263,7 +263,7 @@ class AnalogMVM:
                 )
 
         # - Discretize
-        if res > 0:
+        if res > 0 and io_pars.out_bound > 0:
             out_values = UniformQuantize.apply(
                 out_values, res, io_pars.out_bound, io_pars.out_sto_round
             )
@@ -306,7 +306,7 @@ class AnalogMVM:
             scaled_input *= scale
 
         # - Discretize
-        if io_pars.inp_res > 0:
+        if io_pars.inp_res > 0 and io_pars.inp_bound > 0:
             scaled_input = UniformQuantize.apply(
                 scaled_input, res, io_pars.inp_bound, io_pars.inp_sto_round
             )
-- 
2.43.0


From 92d08e519158292ec81fc037bafe9b28d6a4060b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:43 +0000
Subject: [PATCH 035/139] fix: voltage offsets are sampled once and not
 negative

---
 src/rpucuda/rpu_forward_backward_pass.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rpucuda/rpu_forward_backward_pass.cpp b/src/rpucuda/rpu_forward_backward_pass.cpp
index 9d4985d..e414bc4 100644
--- a/src/rpucuda/rpu_forward_backward_pass.cpp
+++ b/src/rpucuda/rpu_forward_backward_pass.cpp
@@ -268,7 +268,8 @@ void ForwardBackwardPassIOManaged<T>::populateFBParameter(
     if ((mv_pars.v_offset.size() != out_size) && io.hasVoltageOffsets()) {
       mv_pars.v_offset.resize(out_size);
       for (size_t i = 0; i < out_size; i++) {
-        mv_pars.v_offset[i] = MAX(io.v_offset_std * rng_->sampleGauss(), (T)0.0);
+        T v_offset = io.v_offset_std * rng_->sampleGauss(); // MAX would sample twice
+        mv_pars.v_offset[i] = MAX(v_offset, (T)0.0);
       }
     }
 
-- 
2.43.0


From 4f9bbd50677dc90011b19bfa8a1b9e5e525db0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:43 +0000
Subject: [PATCH 036/139] fix: random transfer columns and rows are selected
 uniformly

---
 src/rpucuda/rpu_mixedprec_device_base.cpp | 5 +++--
 src/rpucuda/rpu_transfer_device.cpp       | 4 +++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/rpucuda/rpu_mixedprec_device_base.cpp b/src/rpucuda/rpu_mixedprec_device_base.cpp
index cd5dfba..0dbdee9 100644
--- a/src/rpucuda/rpu_mixedprec_device_base.cpp
+++ b/src/rpucuda/rpu_mixedprec_device_base.cpp
@@ -323,8 +323,9 @@ template <typename T> void MixedPrecRPUDeviceBase<T>::transfer(T **weights, cons
   n_transfers = MIN(n_transfers, this->d_size_);
   int i_row = current_row_index_;
   if (par.random_row && (n_transfers < this->d_size_)) {
-    i_row = MAX(
-        MIN((int)floorf(this->rw_rng_.sampleUniform() * (T)this->d_size_), this->d_size_ - 1), 0);
+    // MIN/MAX would sample multiple times
+    int i_rand = (int)floorf(this->rw_rng_.sampleUniform() * (T)this->d_size_);
+    i_row = MAX(MIN(i_rand, this->d_size_ - 1), 0);
   }
 
   int d2_size = this->d_size_ * this->d_size_;
diff --git a/src/rpucuda/rpu_transfer_device.cpp b/src/rpucuda/rpu_transfer_device.cpp
index 0d6a543..ca7c349 100644
--- a/src/rpucuda/rpu_transfer_device.cpp
+++ b/src/rpucuda/rpu_transfer_device.cpp
@@ -489,7 +489,9 @@ void TransferRPUDevice<T>::transfer(
   int in_size = par.getInSize();
 
   if (par.random_selection) {
-    i_slice = MAX(MIN((int)floorf((float)this->rw_rng_.sampleUniform() * in_size), in_size - 1), 0);
+    // MIN/MAX would sample multiple times
+    int i_rand = (int)floorf((float)this->rw_rng_.sampleUniform() * in_size);
+    i_slice = MAX(MIN(i_rand, in_size - 1), 0);
   }
 
   // transfer_vecs_ is always in_size-major (that is trans==false)
-- 
2.43.0


From 47d590520b35b62bd43e835b811d9a8109769198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:42 +0000
Subject: [PATCH 037/139] fix: torch multiplicative weight noise relative to
 the weight max

---
 src/aihwkit/simulator/tiles/torch_tile.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/torch_tile.py b/src/aihwkit/simulator/tiles/torch_tile.py
index 6bae2a2..bc3dd27 100644
--- a/src/aihwkit/simulator/tiles/torch_tile.py
+++ b/src/aihwkit/simulator/tiles/torch_tile.py
@@ -227,17 +227,17 @@ class TorchSimulatorTile(SimulatorTile, Module):
         if modifier.type in [WeightModifierType.NONE, WeightModifierType.COPY]:
             return inp_weight
 
+        assumed_wmax = modifier.assumed_wmax
+        if modifier.rel_to_actual_wmax:
+            assumed_wmax = inp_weight.abs().max()
+
         if modifier.type == WeightModifierType.MULT_NORMAL:
             with no_grad():
                 gauss = randn(size=target_shape, device=inp_weight.device, dtype=inp_weight.dtype)
-                noise = inp_weight * modifier.std_dev * gauss
+                noise = inp_weight * modifier.std_dev * assumed_wmax * gauss
             out_weight = inp_weight.clone() + noise
             return out_weight
 
-        assumed_wmax = modifier.assumed_wmax
-        if modifier.rel_to_actual_wmax:
-            assumed_wmax = inp_weight.abs().max()
-
         if modifier.type == WeightModifierType.DISCRETIZE:
             # - Discretize the weights on the fly and backprob through them
             out_weight = inp_weight.clone().view(target_shape)
-- 
2.43.0


From 289aec2be1f6b00606d63b774c5146cb94758c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:42 +0000
Subject: [PATCH 038/139] fix: torch weight discretization of zero weights and
 per batch sample

---
 src/aihwkit/simulator/tiles/torch_tile.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/torch_tile.py b/src/aihwkit/simulator/tiles/torch_tile.py
index bc3dd27..2936639 100644
--- a/src/aihwkit/simulator/tiles/torch_tile.py
+++ b/src/aihwkit/simulator/tiles/torch_tile.py
@@ -240,7 +240,9 @@ class TorchSimulatorTile(SimulatorTile, Module):
 
         if modifier.type == WeightModifierType.DISCRETIZE:
             # - Discretize the weights on the fly and backprob through them
-            out_weight = inp_weight.clone().view(target_shape)
+            out_weight = inp_weight.clone().expand(target_shape)
+            if modifier.rel_to_actual_wmax and assumed_wmax == 0.0:
+                return out_weight
             out_weight = UniformQuantize.apply(
                 out_weight, modifier.res, assumed_wmax, modifier.sto_round
             )
-- 
2.43.0


From 81827b5ed1c65c5b907f7cb3975a7d4baf07befb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:55 +0000
Subject: [PATCH 039/139] fix: torch output noise variation follows
 out_noise_std

---
 src/aihwkit/simulator/tiles/torch_tile.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/torch_tile.py b/src/aihwkit/simulator/tiles/torch_tile.py
index 2936639..65295c0 100644
--- a/src/aihwkit/simulator/tiles/torch_tile.py
+++ b/src/aihwkit/simulator/tiles/torch_tile.py
@@ -62,7 +62,10 @@ class TorchSimulatorTile(SimulatorTile, Module):
         self._modifier = rpu_config.modifier
         dtype = rpu_config.runtime.data_type.as_torch()
         if self._f_io.out_noise_std > 0:
-            out_noise_values = (self._f_io.out_noise * (1.0 + randn((d_size,), dtype=dtype))).abs()
+            out_noise_values = (
+                self._f_io.out_noise
+                * (1.0 + self._f_io.out_noise_std * randn((d_size,), dtype=dtype))
+            ).abs()
             self.register_buffer("out_noise_values", out_noise_values)
         else:
             self.out_noise_values = None
-- 
2.43.0


From e89404590ebd7dba9785a23747fe1d8a7edadcc4 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 00:44:29 +0000
Subject: [PATCH 040/139] fix: drift compensation read-out of transposed tiles

---
 src/aihwkit/simulator/tiles/inference.py | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/inference.py b/src/aihwkit/simulator/tiles/inference.py
index bf8b27a..fa857c1 100644
--- a/src/aihwkit/simulator/tiles/inference.py
+++ b/src/aihwkit/simulator/tiles/inference.py
@@ -144,30 +144,21 @@ class InferenceTileWithPeriphery(TileWithPeriphery):
                 .detach()
                 .to(self.device)
             )
-            if self.in_trans:
-                self.drift_readout_tensor = self.drift_readout_tensor.tranpose(
-                    0, 1
-                ).clone()
         else:
             self.drift_readout_tensor = self.drift_readout_tensor.to(self.device)
 
         # We need to take the bias as a common column here, also we do
-        # not want to use indexed.
+        # not want to use indexed. The read-out is always batch first.
         if exact_reference:
-            input_ = self.drift_readout_tensor
-            if self.in_trans:
-                input_ = input_.T
-
-            output = (input_ @ self.reference_combined_weights.T)  # type: ignore
-            if self.out_trans:
-                output = output.T
-
+            output = (
+                self.drift_readout_tensor @ self.reference_combined_weights.T  # type: ignore
+            )
         else:
             output = self.tile.forward(
                 self.drift_readout_tensor,
                 False,
-                self.in_trans,
-                self.out_trans,
+                False,
+                False,
                 True,
                 self.non_blocking,
             )
-- 
2.43.0


From 93beca29e86e2b6ce2af489b32fe6a3fd2a1ef5d Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 00:44:29 +0000
Subject: [PATCH 041/139] fix: per-column drift compensation along the output
 channel dimension

---
 src/aihwkit/simulator/tiles/inference.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aihwkit/simulator/tiles/inference.py b/src/aihwkit/simulator/tiles/inference.py
index fa857c1..adf800c 100644
--- a/src/aihwkit/simulator/tiles/inference.py
+++ b/src/aihwkit/simulator/tiles/inference.py
@@ -286,6 +286,8 @@ class InferenceTileWithPeriphery(TileWithPeriphery):
             and self.rpu_config.drift_compensation is not None
         ):
             # only do drift compensation in eval mode
+            if self.alpha.numel() > 1:
+                return x_output * self.alpha.view(self.get_tensor_view(x_output.dim(), dim))
             return x_output * self.alpha
         return x_output
 
-- 
2.43.0


From 8a5db353be623cff365c8a7c3be844edbcdea25d Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 00:44:29 +0000
Subject: [PATCH 042/139] fix: apply_noise right after programming

---
 src/aihwkit/inference/noise/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aihwkit/inference/noise/base.py b/src/aihwkit/inference/noise/base.py
index b20bf89..c34c3d7 100644
--- a/src/aihwkit/inference/noise/base.py
+++ b/src/aihwkit/inference/noise/base.py
@@ -66,6 +66,8 @@ class BaseNoiseModel:
                 noisy_conductances.append(
                     self.apply_drift_noise_to_conductance(g_prog, nu_drift, t_inference)
                 )
+            else:
+                noisy_conductances.append(g_prog)
 
         noisy_weights = self.g_converter.convert_back_to_weights(noisy_conductances, params)
 
-- 
2.43.0


From 2eb946751507d94297236fa97474915232852cb4 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 00:44:29 +0000
Subject: [PATCH 043/139] fix: reference conductance of the noise coefficients
 can be given

---
 src/aihwkit/inference/noise/hermes.py | 3 ++-
 src/aihwkit/inference/noise/pcm.py    | 3 ++-
 src/aihwkit/inference/noise/reram.py  | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/aihwkit/inference/noise/hermes.py b/src/aihwkit/inference/noise/hermes.py
index c7a84ff..8ed8c51 100644
--- a/src/aihwkit/inference/noise/hermes.py
+++ b/src/aihwkit/inference/noise/hermes.py
@@ -133,7 +133,8 @@ class HermesNoiseModel(BaseNoiseModel):
             raise ValueError("g_max cannot be established from g_converter")
 
         if prog_coeff_g_max_reference is None:
-            self.prog_coeff_g_max_reference = self.g_max
+            prog_coeff_g_max_reference = self.g_max
+        self.prog_coeff_g_max_reference = prog_coeff_g_max_reference
 
         if prog_coeff is None:
             # standard g_max are defined in respect to 20.7 or 10.35 uS. Need to
diff --git a/src/aihwkit/inference/noise/pcm.py b/src/aihwkit/inference/noise/pcm.py
index fbaa4c5..e121326 100644
--- a/src/aihwkit/inference/noise/pcm.py
+++ b/src/aihwkit/inference/noise/pcm.py
@@ -81,7 +81,8 @@ class PCMLikeNoiseModel(BaseNoiseModel):
             raise ValueError("g_max cannot be established from g_converter")
 
         if prog_coeff_g_max_reference is None:
-            self.prog_coeff_g_max_reference = self.g_max
+            prog_coeff_g_max_reference = self.g_max
+        self.prog_coeff_g_max_reference = prog_coeff_g_max_reference
 
         if prog_coeff is None:
             # standard g_max are defined in respect to 25.0 uS. Need to
diff --git a/src/aihwkit/inference/noise/reram.py b/src/aihwkit/inference/noise/reram.py
index d154953..78578c3 100644
--- a/src/aihwkit/inference/noise/reram.py
+++ b/src/aihwkit/inference/noise/reram.py
@@ -80,7 +80,8 @@ class ReRamWan2022NoiseModel(BaseNoiseModel):
             raise ValueError("g_max cannot be established from g_converter")
 
         if coeff_g_max_reference is None:
-            self.coeff_g_max_reference = self.g_max
+            coeff_g_max_reference = self.g_max
+        self.coeff_g_max_reference = coeff_g_max_reference
 
         if coeff_dic is None:
             # standard g_max are defined in respect to 40.0 uS. Need to
-- 
2.43.0


From 0708676937794a7242265ca6092fa787d5db99af Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 00:44:29 +0000
Subject: [PATCH 044/139] fix: reference conductance of the ReRamWan2022
 coefficients

---
 src/aihwkit/inference/noise/reram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/inference/noise/reram.py b/src/aihwkit/inference/noise/reram.py
index 78578c3..9f38765 100644
--- a/src/aihwkit/inference/noise/reram.py
+++ b/src/aihwkit/inference/noise/reram.py
@@ -92,7 +92,7 @@ class ReRamWan2022NoiseModel(BaseNoiseModel):
                 3600 * 24.0: [-16.458, 47.095, -50.773, 22.086, 0.701][::-1],
                 3600 * 24.0 * 2: [-11.934, 37.062, -43.507, 20.274, 0.782][::-1],
             }
-            self.prog_coeff_g_max_reference = 40.0
+            self.coeff_g_max_reference = 40.0
         self.coeff_dic = coeff_dic
         self.noise_scale = noise_scale
 
-- 
2.43.0


From 6bac3afdbbd534740d31a060184e6a206e25c24f Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 00:44:29 +0000
Subject: [PATCH 045/139] fix: ReRamCMO read noise of vanishing conductance

---
 src/aihwkit/inference/noise/reram.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/aihwkit/inference/noise/reram.py b/src/aihwkit/inference/noise/reram.py
index 9f38765..e31572b 100644
--- a/src/aihwkit/inference/noise/reram.py
+++ b/src/aihwkit/inference/noise/reram.py
@@ -22,6 +22,8 @@ from aihwkit.inference.converter.conductance import (
     SingleDeviceConductanceConverter,
 )
 
+_ZERO_CLIP = 1e-7
+
 
 class ReRamWan2022NoiseModel(BaseNoiseModel):
     r"""Noise model that was inferred from ReRam publication data.
@@ -310,7 +312,7 @@ class ReRamCMONoiseModel(BaseNoiseModel):
         g_drift = g_mean + (randn_like(g_prog) * sigma_relaxation * self.drift_scale)
         sigma_read = (
             self.read_dict["K"]
-            * log10(g_drift)
+            * log10(g_drift.clamp(min=_ZERO_CLIP))
             * sqrt(log((t_inference + self.read_dict["t_read"]) / (2 * self.read_dict["t_read"])))
         )
         g_final = g_drift + sigma_read * randn_like(g_prog) * self.read_noise_scale
-- 
2.43.0


From ae7a56c69e8434608088b7b6ecbf398501f1ff3d Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 00:44:29 +0000
Subject: [PATCH 046/139] fix: custom drift model does not modify the given
 conductances

---
 src/aihwkit/inference/noise/pcm.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/aihwkit/inference/noise/pcm.py b/src/aihwkit/inference/noise/pcm.py
index e121326..75a9c97 100644
--- a/src/aihwkit/inference/noise/pcm.py
+++ b/src/aihwkit/inference/noise/pcm.py
@@ -281,8 +281,7 @@ class CustomDriftPCMLikeNoiseModel(PCMLikeNoiseModel):
         g_min = torch_min(g_lst)
         g_max = torch_max(g_lst)
 
-        g_target[g_target > g_max] = g_max  # clip G values to g_max
-        g_target[g_target < g_min] = g_min  # clip G values to g_min
+        g_target = clamp(g_target, min=g_min, max=g_max)  # clip G values to model range
 
         assert (g_target >= g_min).all(), "All G values must be >= g_min"
         assert (g_target <= g_max).all(), "All G values must be <= g_max"
-- 
2.43.0


From 7ab3a9e51931d5a336636973d5fcc7e35418fe88 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 00:44:29 +0000
Subject: [PATCH 047/139] fix: single device conversion of constant weights

---
 src/aihwkit/inference/converter/conductance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/inference/converter/conductance.py b/src/aihwkit/inference/converter/conductance.py
index bf19ea0..f1c79c6 100644
--- a/src/aihwkit/inference/converter/conductance.py
+++ b/src/aihwkit/inference/converter/conductance.py
@@ -376,7 +376,7 @@ class SingleDeviceConductanceConverter(BaseConductanceConverter):
     def convert_to_conductances(self, weights: Tensor) -> Tuple[List[Tensor], Dict]:
         w_min = weights.min()
         w_max = weights.max()
-        scale_ratio = (self.g_max - self.g_min) / (w_max - w_min)
+        scale_ratio = (self.g_max - self.g_min) / (w_max - w_min).clamp(min=_ZERO_CLIP)
         scaled_weights = (weights - w_min) * scale_ratio
         conductance = scaled_weights + self.g_min
         params = {"scale_ratio": scale_ratio, "min": w_min}
-- 
2.43.0


From 455deecb035ceffbbca4a05894c25d7d7d40897c Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 00:48:20 +0000
Subject: [PATCH 048/139] fix: ReRamCMO read noise for times shorter than the
 read time

---
 src/aihwkit/inference/noise/reram.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/aihwkit/inference/noise/reram.py b/src/aihwkit/inference/noise/reram.py
index e31572b..f3bc356 100644
--- a/src/aihwkit/inference/noise/reram.py
+++ b/src/aihwkit/inference/noise/reram.py
@@ -313,7 +313,12 @@ class ReRamCMONoiseModel(BaseNoiseModel):
         sigma_read = (
             self.read_dict["K"]
             * log10(g_drift.clamp(min=_ZERO_CLIP))
-            * sqrt(log((t_inference + self.read_dict["t_read"]) / (2 * self.read_dict["t_read"])))
+            * sqrt(
+                max(
+                    log((t_inference + self.read_dict["t_read"]) / (2 * self.read_dict["t_read"])),
+                    0.0,
+                )
+            )
         )
         g_final = g_drift + sigma_read * randn_like(g_prog) * self.read_noise_scale
 
-- 
2.43.0


From 9c5e21edbe17acdb5dfd06be696aa0671af67d23 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 00:54:26 +0000
Subject: [PATCH 049/139] fix: torch tile remapping of zero weights

---
 src/aihwkit/simulator/tiles/torch_tile.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/torch_tile.py b/src/aihwkit/simulator/tiles/torch_tile.py
index 65295c0..519448d 100644
--- a/src/aihwkit/simulator/tiles/torch_tile.py
+++ b/src/aihwkit/simulator/tiles/torch_tile.py
@@ -8,7 +8,7 @@
 
 from typing import Callable, Any, Type, TYPE_CHECKING
 
-from torch import Tensor, zeros, clamp, randn
+from torch import Tensor, zeros, clamp, randn, where
 from torch.nn import Parameter, Module
 from torch.autograd import no_grad
 
@@ -131,11 +131,18 @@ class TorchSimulatorTile(SimulatorTile, Module):
         scaled_weights = self.weight * scales.view(-1, 1)
         if remap.type == WeightRemapType.LAYERWISE_SYMMETRIC:
             new_scale = scaled_weights.abs().max()
+            if new_scale == 0.0:
+                return scales
             self.weight.data = scaled_weights / new_scale
             return new_scale.view(-1)
         if remap.type == WeightRemapType.CHANNELWISE_SYMMETRIC:
             new_scale, _ = scaled_weights.abs().max(1)
-            self.weight.data = scaled_weights / new_scale.view(-1, 1)
+            # channels having zero weights only are kept as they are
+            is_zero = new_scale == 0.0
+            new_scale = where(is_zero, scales.view(-1).expand_as(new_scale), new_scale)
+            self.weight.data = where(
+                is_zero.view(-1, 1), self.weight.data, scaled_weights / new_scale.view(-1, 1)
+            )
             return new_scale
 
         raise TorchTileConfigError(f"Unknown weight remap type {remap.type}")
-- 
2.43.0


From 5fc7c348b6a360e4ba16c1f4d9520013cb792838 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 00:54:26 +0000
Subject: [PATCH 050/139] fix: torch tile weight clipping without a positive
 clip value

---
 src/aihwkit/simulator/tiles/torch_tile.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/torch_tile.py b/src/aihwkit/simulator/tiles/torch_tile.py
index 519448d..5d2855c 100644
--- a/src/aihwkit/simulator/tiles/torch_tile.py
+++ b/src/aihwkit/simulator/tiles/torch_tile.py
@@ -160,12 +160,16 @@ class TorchSimulatorTile(SimulatorTile, Module):
         """
 
         if clip.type == WeightClipType.FIXED_VALUE:
-            self.weight.data = clamp(self.weight, -clip.fixed_value, clip.fixed_value)
+            if clip.fixed_value > 0:
+                self.weight.data = clamp(self.weight, -clip.fixed_value, clip.fixed_value)
         elif clip.type == WeightClipType.LAYER_GAUSSIAN:
-            alpha = self.weight.std() * clip.sigma
+            if self.weight.numel() < 2:
+                return
+            alpha = self.weight.std().item() * clip.sigma
             if clip.fixed_value > 0:
                 alpha = min(clip.fixed_value, alpha)
-            self.weight.data = clamp(self.weight, -alpha, alpha)
+            if alpha > 0:
+                self.weight.data = clamp(self.weight, -alpha, alpha)
 
         elif clip.type == WeightClipType.AVERAGE_CHANNEL_MAX:
             raise NotImplementedError
-- 
2.43.0


From 1c03e733570fc5b26735ed62e83c7c265661223d Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 00:56:58 +0000
Subject: [PATCH 051/139] fix: loading the state of the weight modifier

---
 src/rpucuda/rpu.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/rpucuda/rpu.cpp b/src/rpucuda/rpu.cpp
index 8057803..8ec6073 100644
--- a/src/rpucuda/rpu.cpp
+++ b/src/rpucuda/rpu.cpp
@@ -463,7 +463,13 @@ void RPUSimple<T>::loadExtra(const RPU::state_t &extra, const std::string prefix
         fb_weight_modifier_ = RPU::make_unique<WeightModifier<T>>(this->x_size_, this->d_size_);
       }
       RPU::math::copy<T>(tmp.size(), tmp.data(), 1, fb_weights_[0], 1);
+      fb_weight_modifier_->loadExtra(state, "fb_weight_modifier", strict);
     }
+  } else if (fb_weights_ != nullptr) {
+    // state was saved without modified weights
+    Array_2D_Free<T>(fb_weights_);
+    fb_weights_ = nullptr;
+    fb_weight_modifier_ = nullptr;
   }
 
   if (state.count("wdrifter")) {
-- 
2.43.0


From 50e1332add57b29aa95329c3d4cf9d9650d81893 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 00:59:28 +0000
Subject: [PATCH 052/139] fix: deep copies of a state dictionary with analog
 parameters

---
 src/aihwkit/optim/weight_view.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/aihwkit/optim/weight_view.py b/src/aihwkit/optim/weight_view.py
index 6cb614a..614ad64 100644
--- a/src/aihwkit/optim/weight_view.py
+++ b/src/aihwkit/optim/weight_view.py
@@ -6,7 +6,7 @@
 
 """Read-only and placeholder tensor views for analog tile weights."""
 
-from typing import Any, Callable, Optional
+from typing import Any, Callable, Dict, Optional
 
 from torch import Tensor
 from torch._C import DisableTorchFunction
@@ -197,6 +197,13 @@ class PlaceholderDataView(Tensor):
         kwargs = tree_map(unwrap, kwargs)
         return func(*args, **kwargs)
 
+    def __deepcopy__(self, memo: Dict[int, Any]) -> "PlaceholderDataView":
+        """Copy the placeholder, e.g. of a state dictionary (no values are read)."""
+        if id(self) not in memo:
+            with DisableTorchFunction():  # pylint: disable=not-context-manager
+                memo[id(self)] = PlaceholderDataView(self.as_subclass(Tensor).detach().clone())
+        return memo[id(self)]
+
     def __repr__(self) -> str:
         """Return metadata summary without exposing meaningless backing values."""
         with DisableTorchFunction():  # pylint: disable=not-context-manager
-- 
2.43.0


From 393f23552453cd05300d9549779d19a29d1f7b4d Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 01:05:03 +0000
Subject: [PATCH 053/139] fix: input range calibration without force_all_layers
 leaves other layers

---
 src/aihwkit/inference/calibration/calibration.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/src/aihwkit/inference/calibration/calibration.py b/src/aihwkit/inference/calibration/calibration.py
index 793d5c5..3edfe35 100644
--- a/src/aihwkit/inference/calibration/calibration.py
+++ b/src/aihwkit/inference/calibration/calibration.py
@@ -249,14 +249,6 @@ def calibrate_input_ranges(
     for handle in handles:
         handle.remove()
 
-    # now create the input range fields
-    for tile_name, tile in model.named_analog_tiles():
-        rpu_config = tile.rpu_config
-        if not rpu_config.pre_post.input_range.enable:
-            rpu_config.pre_post.input_range.enable = True
-            rpu_config.pre_post.input_range.learn_input_range = False
-            tile.init_input_processing()
-
     for tile_name, tile in model.named_analog_tiles():
         rpu_config = tile.rpu_config
 
-- 
2.43.0


From 93f09117d8083398eb26c8b8366a3b933c68ece4 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 01:05:03 +0000
Subject: [PATCH 054/139] fix: input range calibration of tiles without
 (non-zero) inputs

---
 .../inference/calibration/calibration.py       | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/aihwkit/inference/calibration/calibration.py b/src/aihwkit/inference/calibration/calibration.py
index 3edfe35..c405e6d 100644
--- a/src/aihwkit/inference/calibration/calibration.py
+++ b/src/aihwkit/inference/calibration/calibration.py
@@ -78,6 +78,8 @@ def _calibration_pre_forward(
     x_input = input_args[0]
     x_input = x_input.reshape(-1, x_input.size(-1))
     x_input = x_input[~(x_input == 0.0).all(-1)]
+    if x_input.numel() == 0:
+        return
 
     ir_params = mod.rpu_config.pre_post.input_range  # type: ignore
     cache = global_cache[cache_key]
@@ -258,6 +260,14 @@ def calibrate_input_ranges(
         if not force_all_layers and not rpu_config.pre_post.input_range.enable:
             continue
 
+        # Restore the tile if necessary
+        if rpu_config.forward.is_perfect != is_perfect_dic[tile_name]:
+            tile_state = tile.__getstate__()
+            tile_state[AnalogTileStateNames.RPU_CONFIG].forward.is_perfect = is_perfect_dic[
+                tile_name
+            ]
+            tile.__setstate__(tile_state)
+
         inputs = cache[tile_name]
         if inputs.numel() == 0:
             if verbose:
@@ -272,14 +282,6 @@ def calibrate_input_ranges(
         elif calibration_type == InputRangeCalibrationType.MAX:
             input_range = inputs.item()
 
-        # Restore the tile if necessary
-        if rpu_config.forward.is_perfect != is_perfect_dic[tile_name]:
-            tile_state = tile.__getstate__()
-            tile_state[AnalogTileStateNames.RPU_CONFIG].forward.is_perfect = is_perfect_dic[
-                tile_name
-            ]
-            tile.__setstate__(tile_state)
-
         # set the input range
         tile.set_input_range(input_range)
         if verbose:
-- 
2.43.0


From b13681ddbb6821962b16b7f1235a627850468b33 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 01:05:03 +0000
Subject: [PATCH 055/139] fix: fraction of clipped outputs for the input range
 management

---
 src/aihwkit/simulator/tiles/periphery.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/periphery.py b/src/aihwkit/simulator/tiles/periphery.py
index a988efd..556b605 100644
--- a/src/aihwkit/simulator/tiles/periphery.py
+++ b/src/aihwkit/simulator/tiles/periphery.py
@@ -1136,7 +1136,9 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
                 None if len(ctx.saved_analog_tensors) < 2 else ctx.saved_analog_tensors[1]
             )
             if ir_params.manage_output_clipping and zero_grad_msk is not None:
-                output_percentage = 1.0 - zero_grad_msk.count_nonzero().item() / d_output.numel()
+                output_percentage = (
+                    1.0 - zero_grad_msk.count_nonzero().item() / zero_grad_msk.numel()
+                )
                 grad -= (
                     (1.0 - output_percentage)
                     * self.input_range
-- 
2.43.0


From 2aa712e3e3eeeab7c3765df06da0aafdcedcbc86 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 01:05:03 +0000
Subject: [PATCH 056/139] fix: gradient scale of the input range without
 relative gradient

---
 src/aihwkit/simulator/tiles/inference_torch.py | 2 +-
 src/aihwkit/simulator/tiles/periphery.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/inference_torch.py b/src/aihwkit/simulator/tiles/inference_torch.py
index 5dee41e..215d44e 100644
--- a/src/aihwkit/simulator/tiles/inference_torch.py
+++ b/src/aihwkit/simulator/tiles/inference_torch.py
@@ -56,7 +56,7 @@ class InputRangeForward(Function):
 
             if ir_params.gradient_relative:
                 ir_grad *= input_range
-                ir_grad *= ir_params.gradient_scale
+            ir_grad *= ir_params.gradient_scale
 
             if ir_params.manage_output_clipping:
                 raise NotImplementedError
diff --git a/src/aihwkit/simulator/tiles/periphery.py b/src/aihwkit/simulator/tiles/periphery.py
index 556b605..327f4f9 100644
--- a/src/aihwkit/simulator/tiles/periphery.py
+++ b/src/aihwkit/simulator/tiles/periphery.py
@@ -1130,7 +1130,7 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
 
             if ir_params.gradient_relative:
                 grad *= self.input_range
-                grad *= ir_params.gradient_scale
+            grad *= ir_params.gradient_scale
 
             zero_grad_msk = (
                 None if len(ctx.saved_analog_tensors) < 2 else ctx.saved_analog_tensors[1]
-- 
2.43.0


From a1dd692ec2ad2233e3e6f827a2489b7919e348e9 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 01:11:09 +0000
Subject: [PATCH 057/139] fix: in-place operators on read-only analog weights
 are refused

---
 src/aihwkit/optim/weight_view.py | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/optim/weight_view.py b/src/aihwkit/optim/weight_view.py
index 614ad64..3faeeed 100644
--- a/src/aihwkit/optim/weight_view.py
+++ b/src/aihwkit/optim/weight_view.py
@@ -13,8 +13,29 @@ from torch._C import DisableTorchFunction
 from torch.utils._pytree import tree_map
 
 
+_INPLACE_OPERATORS = {
+    "__iadd__",
+    "__isub__",
+    "__imul__",
+    "__imatmul__",
+    "__idiv__",
+    "__itruediv__",
+    "__ifloordiv__",
+    "__imod__",
+    "__ipow__",
+    "__ilshift__",
+    "__irshift__",
+    "__iand__",
+    "__ior__",
+    "__ixor__",
+    "__setitem__",
+}
+
+
 def is_inplace_operation(func_name: str) -> bool:
     """Return whether ``func_name`` follows the PyTorch in-place convention."""
+    if func_name in _INPLACE_OPERATORS:
+        return True
     return func_name.endswith("_") and not func_name.endswith("__")
 
 
@@ -37,8 +58,11 @@ def raise_if_readonly_write_target(
     is_readonly: Callable[[Any], bool],
 ) -> None:
     """Raise if a read-only analog weight view is used as a write target."""
-    if is_inplace_operation(func_name) and args and is_readonly(args[0]):
-        raise_readonly_error(func_name)
+    if is_inplace_operation(func_name) and args:
+        # in-place multi-tensor operations get a list of targets
+        targets = args[0] if isinstance(args[0], (list, tuple)) else [args[0]]
+        if any(is_readonly(target) for target in targets):
+            raise_readonly_error(func_name)
 
     if "out" not in kwargs:
         return
-- 
2.43.0


From 02d854392f1ff467855422cc0b7d5cbe5ee1a445 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 01:11:09 +0000
Subject: [PATCH 058/139] fix: views of the read-only analog weights are
 read-only

---
 src/aihwkit/optim/context.py     |  2 +-
 src/aihwkit/optim/weight_view.py | 17 +++++++++++++++--
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/aihwkit/optim/context.py b/src/aihwkit/optim/context.py
index d4ee8ef..d848bf7 100644
--- a/src/aihwkit/optim/context.py
+++ b/src/aihwkit/optim/context.py
@@ -329,7 +329,7 @@ class AnalogContext(Parameter):
                 _raise_placeholder_read_error(func_name)
             return self._placeholder_data()
         if mode == AnalogContextDataViewMode.DATA_VIEW:
-            return self._logical_data()
+            return ReadOnlyWeightView(self._logical_data())
         if mode == AnalogContextDataViewMode.BUFFER:
             return self._buffer_data()
         raise RuntimeError(f"Unsupported AnalogContext data view mode: {mode}")
diff --git a/src/aihwkit/optim/weight_view.py b/src/aihwkit/optim/weight_view.py
index 3faeeed..8806573 100644
--- a/src/aihwkit/optim/weight_view.py
+++ b/src/aihwkit/optim/weight_view.py
@@ -103,12 +103,25 @@ class ReadOnlyWeightView(Tensor):
 
         raise_if_readonly_write_target(func_name, args, kwargs, is_readonly)
 
+        storages = set()
+
         def unwrap(t: Any) -> Any:
-            return t.as_subclass(Tensor) if isinstance(t, ReadOnlyWeightView) else t
+            if isinstance(t, ReadOnlyWeightView):
+                t = t.as_subclass(Tensor)
+                storages.add(t.untyped_storage().data_ptr())
+            return t
 
         args = tree_map(unwrap, args)
         kwargs = tree_map(unwrap, kwargs)
-        return func(*args, **kwargs)
+        result = func(*args, **kwargs)
+
+        def wrap(t: Any) -> Any:
+            # views of the weights are read-only, too
+            if type(t) is Tensor and t.untyped_storage().data_ptr() in storages:
+                return ReadOnlyWeightView(t)
+            return t
+
+        return tree_map(wrap, result)
 
     def __setitem__(self, key: Any, value: Any) -> None:
         """Block item assignment (e.g., ``ctx.data[0, 0] = 999``)."""
-- 
2.43.0


From 20ca065e1aed86dcf01ec70582ce30f6b795d4a9 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 01:15:34 +0000
Subject: [PATCH 059/139] fix: in-place functions with keyword targets are
 refused on analog weights

---
 src/aihwkit/optim/weight_view.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/aihwkit/optim/weight_view.py b/src/aihwkit/optim/weight_view.py
index 8806573..20045d9 100644
--- a/src/aihwkit/optim/weight_view.py
+++ b/src/aihwkit/optim/weight_view.py
@@ -58,11 +58,14 @@ def raise_if_readonly_write_target(
     is_readonly: Callable[[Any], bool],
 ) -> None:
     """Raise if a read-only analog weight view is used as a write target."""
-    if is_inplace_operation(func_name) and args:
-        # in-place multi-tensor operations get a list of targets
-        targets = args[0] if isinstance(args[0], (list, tuple)) else [args[0]]
-        if any(is_readonly(target) for target in targets):
-            raise_readonly_error(func_name)
+    if is_inplace_operation(func_name):
+        # the target might be given by keyword, e.g. for ``torch.nn.init``
+        targets = [args[0]] if args else [kwargs.get(k) for k in ("input", "tensor", "self")]
+        for target in targets:
+            # in-place multi-tensor operations get a list of targets
+            values = target if isinstance(target, (list, tuple)) else [target]
+            if any(is_readonly(value) for value in values):
+                raise_readonly_error(func_name)
 
     if "out" not in kwargs:
         return
-- 
2.43.0


From f8699771bf93ca49d2462c1c4ccaf4a9c5204679 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 01:15:34 +0000
Subject: [PATCH 060/139] fix: update of the custom tile keeps the weight
 reference of the context

---
 src/aihwkit/simulator/tiles/custom.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/custom.py b/src/aihwkit/simulator/tiles/custom.py
index c30bf67..34b4a61 100644
--- a/src/aihwkit/simulator/tiles/custom.py
+++ b/src/aihwkit/simulator/tiles/custom.py
@@ -132,7 +132,8 @@ class CustomSimulatorTile(SimulatorTile, Module):
         if self._update.gradient_noise:
             delta_w += self._update.gradient_noise * randn_like(delta_w)
 
-        self._analog_weight = self._analog_weight - self.learning_rate * delta_w  # type: ignore
+        # in-place, as the analog context holds a reference to the weights
+        self._analog_weight.sub_(self.learning_rate * delta_w)
 
     def set_config(self, rpu_config: "CustomRPUConfig") -> None:
         """Updated the configuration to allow on-the-fly changes.
-- 
2.43.0


From acee916b4efbbfbd080ce2288a2fdfb82b0723b9 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 01:20:47 +0000
Subject: [PATCH 061/139] fix: loading and copying keeps the analog parameter
 and its frozen state

---
 src/aihwkit/optim/context.py        |  4 ++--
 src/aihwkit/simulator/tiles/base.py | 12 +++++++++++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/aihwkit/optim/context.py b/src/aihwkit/optim/context.py
index d848bf7..bdcf968 100644
--- a/src/aihwkit/optim/context.py
+++ b/src/aihwkit/optim/context.py
@@ -437,11 +437,11 @@ class AnalogContext(Parameter):
     def __copy__(self) -> Parameter:
         """Turn off copying of the pointers. Context will be re-created
         when tile is created"""
-        return Parameter(self._raw_data())
+        return Parameter(self._raw_data(), requires_grad=self.requires_grad)
 
     def __deepcopy__(self, memo: Any) -> Parameter:
         """Turn off deep copying. Context will be re-created when tile is created"""
-        return Parameter(self._raw_data())
+        return Parameter(self._raw_data(), requires_grad=self.requires_grad)
 
     def cuda(self, device: Optional[Union[torch_device, str, int]] = None) -> "AnalogContext":
         """Move the context to a cuda device.
diff --git a/src/aihwkit/simulator/tiles/base.py b/src/aihwkit/simulator/tiles/base.py
index af019e1..e76e298 100644
--- a/src/aihwkit/simulator/tiles/base.py
+++ b/src/aihwkit/simulator/tiles/base.py
@@ -796,7 +796,17 @@ class SimulatorTileWrapper:
                 self.tile.load_extra(extra, False)
 
         # map location should be applied to tensors in state_dict
-        self.analog_ctx = AnalogContext(self)
+        current_ctx = self.__dict__.get("_parameters", {}).get(AnalogTileStateNames.CONTEXT)
+        if isinstance(current_ctx, AnalogContext):
+            # Loading into an existing tile: the parameter needs to stay the same
+            # object, since it might be referenced e.g. by an optimizer.
+            current_ctx._replace_raw_data(self._get_tile_weights_ref())
+            current_ctx.reset(self)
+        else:
+            self.analog_ctx = AnalogContext(self)
+            if current_ctx is not None:
+                # frozen tiles stay frozen when copied
+                self.analog_ctx.requires_grad = current_ctx.requires_grad
 
         if analog_ctx is not None:
             # Keep the object ID and device
-- 
2.43.0


From 4934a578d24be51cbf59336d041c8d54eee8a518 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 01:34:56 +0000
Subject: [PATCH 062/139] fix: gradients of shared weights with a learning rate
 of zero

---
 src/aihwkit/simulator/rpu_base_src/rpu_base_tiles.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/rpu_base_src/rpu_base_tiles.cpp b/src/aihwkit/simulator/rpu_base_src/rpu_base_tiles.cpp
index d4206f2..c7ae7e5 100644
--- a/src/aihwkit/simulator/rpu_base_src/rpu_base_tiles.cpp
+++ b/src/aihwkit/simulator/rpu_base_src/rpu_base_tiles.cpp
@@ -538,7 +538,8 @@ void declare_rpu_tiles(py::module &m, std::string type_name_add) {
              bool bias = false, bool x_trans = false, bool d_trans = false,
              bool non_blocking = false) {
             T_RPU lr = self.getLearningRate();
-            if (lr == (T_RPU)0.0) {
+            if (lr == (T_RPU)0.0 && !self.getDeltaWeights()) {
+              // delta weights do not depend on the learning rate
               return;
             }
 
-- 
2.43.0


From de59ebbd9c76e5c3d69d6d45bd2e23f1a2b9efc6 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 01:40:39 +0000
Subject: [PATCH 063/139] fix: conversion of sequential containers keeps
 repeated modules and the training mode

---
 src/aihwkit/nn/modules/container.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/nn/modules/container.py b/src/aihwkit/nn/modules/container.py
index 7f5d36b..792a3f9 100644
--- a/src/aihwkit/nn/modules/container.py
+++ b/src/aihwkit/nn/modules/container.py
@@ -77,12 +77,17 @@ class AnalogSequential(AnalogContainerBase, Sequential):
     @classmethod
     def from_digital(cls, module: Sequential, *args: Any, **kwargs: Any) -> "AnalogSequential":
         """Construct AnalogSequential in-place from Sequential."""
-        return cls(OrderedDict(mod for mod in module.named_children()))
+        # note that modules might be used multiple times
+        analog_module = cls(OrderedDict(module._modules))
+        analog_module.training = module.training
+        return analog_module
 
     @classmethod
     def to_digital(cls, module: "AnalogSequential", *args: Any, **kwargs: Any) -> Sequential:
         """Construct Sequential in-place from AnalogSequential."""
-        return Sequential(OrderedDict(mod for mod in module.named_children()))
+        digital_module = Sequential(OrderedDict(module._modules))
+        digital_module.training = module.training
+        return digital_module
 
 
 class AnalogWrapper(AnalogContainerBase):
-- 
2.43.0


From 85893b937773054d4e8ae2e48e9d1889c87b2951 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 01:40:39 +0000
Subject: [PATCH 064/139] fix: wrapping of different classes with the same name

---
 src/aihwkit/nn/modules/container.py   | 6 +++++-
 src/aihwkit/optim/analog_optimizer.py | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/nn/modules/container.py b/src/aihwkit/nn/modules/container.py
index 792a3f9..3c1a99e 100644
--- a/src/aihwkit/nn/modules/container.py
+++ b/src/aihwkit/nn/modules/container.py
@@ -119,7 +119,11 @@ class AnalogWrapper(AnalogContainerBase):
         # Retrieve or create a new subclass, that inherits both from
         # `AnalogModuleBase` and for the specific torch module
         # (`module_cls`).
-        if subclass_name not in cls.SUBCLASSES:
+        # (different classes might have the same name)
+        if (
+            subclass_name not in cls.SUBCLASSES
+            or module_cls not in cls.SUBCLASSES[subclass_name].__bases__
+        ):
             cls.SUBCLASSES[subclass_name] = new_class(subclass_name, (cls, module_cls), {})
 
         return super().__new__(cls.SUBCLASSES[subclass_name])
diff --git a/src/aihwkit/optim/analog_optimizer.py b/src/aihwkit/optim/analog_optimizer.py
index 3d9a565..e570d8e 100644
--- a/src/aihwkit/optim/analog_optimizer.py
+++ b/src/aihwkit/optim/analog_optimizer.py
@@ -242,7 +242,11 @@ class AnalogOptimizer(AnalogOptimizerMixin, Optimizer):
         # Retrieve or create a new subclass, that inherits both from
         # `AnalogOptimizer` and for the specific torch optimizer
         # (`optimizer_cls`).
-        if subclass_name not in cls.SUBCLASSES:
+        # (different classes might have the same name)
+        if (
+            subclass_name not in cls.SUBCLASSES
+            or optimizer_cls not in cls.SUBCLASSES[subclass_name].__bases__
+        ):
             cls.SUBCLASSES[subclass_name] = new_class(subclass_name, (cls, optimizer_cls), {})
 
         return super().__new__(cls.SUBCLASSES[subclass_name])
-- 
2.43.0


From b6c54e74865bd8e48e718b77661b0865e178a412 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 01:40:39 +0000
Subject: [PATCH 065/139] fix: conversion keeps the training mode of the layers

---
 src/aihwkit/nn/conversion.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/aihwkit/nn/conversion.py b/src/aihwkit/nn/conversion.py
index f148a62..93fd52f 100644
--- a/src/aihwkit/nn/conversion.py
+++ b/src/aihwkit/nn/conversion.py
@@ -77,6 +77,15 @@ def specific_rpu_config_id(
     return rpu_config
 
 
+def _keep_training_mode(module: Module, new_module: Module) -> Module:
+    """Apply the training mode of the original module to the converted module."""
+    if len(module._modules) > 0 and not isinstance(module, AnalogLayerBase):
+        new_module.training = module.training
+    else:
+        new_module.train(module.training)
+    return new_module
+
+
 def convert_to_analog(
     module: Module,
     rpu_config: RPUConfigGeneric,
@@ -167,11 +176,12 @@ def convert_to_analog(
     if module.__class__ in conversion_map and module_name not in exclude_modules:
         if verbose:
             print(f"Converted '{module_name}' to '{conversion_map[module.__class__].__name__}'.")
-        module = conversion_map[module.__class__].from_digital(
+        analog_module = conversion_map[module.__class__].from_digital(
             module,
             specific_rpu_config_fun(module_name, module, deepcopy(rpu_config)),
             tile_module_class,
         )
+        module = _keep_training_mode(module, analog_module)
 
     # Convert children.
     convert_dic = {}
@@ -201,9 +211,10 @@ def convert_to_analog(
             continue
         if verbose:
             print(f"Converted '{full_name}' to '{conversion_map[mod.__class__].__name__}'.")
-        convert_dic[name] = conversion_map[mod.__class__].from_digital(
+        analog_module = conversion_map[mod.__class__].from_digital(
             mod, specific_rpu_config_fun(full_name, mod, deepcopy(rpu_config)), tile_module_class
         )
+        convert_dic[name] = _keep_training_mode(mod, analog_module)
 
     for name, new_mod in convert_dic.items():
         module._modules[name] = new_mod  # pylint: disable=protected-access
@@ -273,7 +284,10 @@ def convert_to_digital(
                 "The conversion set should only contain "
                 "analog layers that support `to_digital` conversion."
             )
-        module = module.__class__.to_digital(module)
+        digital_module = module.__class__.to_digital(module)
+        if not getattr(module, "IS_CONTAINER", False):
+            _keep_training_mode(module, digital_module)
+        module = digital_module
 
     # Convert children.
     convert_dic = {}
@@ -293,7 +307,7 @@ def convert_to_digital(
                 "The conversion set should only contain "
                 "analog layers that support `to_digital` conversion."
             )
-        convert_dic[name] = mod.to_digital(mod)  # type: ignore
+        convert_dic[name] = _keep_training_mode(mod, mod.to_digital(mod))  # type: ignore
 
     for name, new_mod in convert_dic.items():
         module._modules[name] = new_mod  # pylint: disable=protected-access
-- 
2.43.0


From 00794d9db43a4b7542bda44173ac09239615b558 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 01:40:39 +0000
Subject: [PATCH 066/139] fix: conversion of modules that are used multiple
 times

---
 src/aihwkit/nn/conversion.py | 42 ++++++++++++++++++++++++++++++++----
 1 file changed, 38 insertions(+), 4 deletions(-)

diff --git a/src/aihwkit/nn/conversion.py b/src/aihwkit/nn/conversion.py
index 93fd52f..56f8f94 100644
--- a/src/aihwkit/nn/conversion.py
+++ b/src/aihwkit/nn/conversion.py
@@ -97,6 +97,7 @@ def convert_to_analog(
     exclude_modules: Optional[List[str]] = None,
     inplace: bool = False,
     verbose: bool = False,
+    _converted: Optional[Dict] = None,
 ) -> Module:
     """Convert a given digital model to its analog counterpart.
 
@@ -147,6 +148,8 @@ def convert_to_analog(
 
         verbose: Increase verbosity. Will print converted layers.
 
+        _converted: Modules already converted (internally used, since
+            modules might be shared).
 
     Returns:
         Module where all the digital layers are replaced with analog
@@ -166,6 +169,9 @@ def convert_to_analog(
     if conversion_map is None:
         conversion_map = _DEFAULT_CONVERSION_MAP
 
+    if _converted is None:
+        _converted = {}
+
     if not isinstance(conversion_map, dict):
         raise ArgumentError("Conversion map should be a dictionary")
 
@@ -185,10 +191,15 @@ def convert_to_analog(
 
     # Convert children.
     convert_dic = {}
-    for name, mod in module.named_children():
+    for name, mod in module._modules.items():  # pylint: disable=protected-access
         full_name = module_name + "." + name if module_name else name
 
-        if full_name in exclude_modules:
+        if mod is None or full_name in exclude_modules:
+            continue
+
+        if id(mod) in _converted:
+            # shared modules stay shared
+            convert_dic[name] = _converted[id(mod)][1]
             continue
 
         n_grand_children = len(list(mod.named_children()))
@@ -204,7 +215,9 @@ def convert_to_analog(
                 exclude_modules,
                 True,
                 verbose,
+                _converted,
             )
+            _converted[id(mod)] = (mod, convert_dic[name])
             continue
 
         if mod.__class__ not in conversion_map.keys():
@@ -215,6 +228,7 @@ def convert_to_analog(
             mod, specific_rpu_config_fun(full_name, mod, deepcopy(rpu_config)), tile_module_class
         )
         convert_dic[name] = _keep_training_mode(mod, analog_module)
+        _converted[id(mod)] = (mod, convert_dic[name])
 
     for name, new_mod in convert_dic.items():
         module._modules[name] = new_mod  # pylint: disable=protected-access
@@ -231,6 +245,7 @@ def convert_to_digital(
     conversion_set: Optional[Set] = None,
     module_name: str = "",
     inplace: bool = False,
+    _converted: Optional[Dict] = None,
 ) -> Module:
     """Convert a given analog model to digital counter parts.
 
@@ -258,6 +273,9 @@ def convert_to_digital(
 
         inplace: Whether to for in place conversion (without deepcopy)
 
+        _converted: Modules already converted (internally used, since
+            modules might be shared).
+
     Returns:
         Module where all the analog layers are replaced with digital
         layers
@@ -274,6 +292,9 @@ def convert_to_digital(
     if conversion_set is None:
         conversion_set = _DEFAULT_DIGITAL_CONVERSION_SET
 
+    if _converted is None:
+        _converted = {}
+
     if not isinstance(conversion_set, set):
         raise ArgumentError("Conversion set should be a set")
 
@@ -291,12 +312,24 @@ def convert_to_digital(
 
     # Convert children.
     convert_dic = {}
-    for name, mod in module.named_children():
+    for name, mod in module._modules.items():  # pylint: disable=protected-access
         full_name = module_name + "." + name if module_name else name
+
+        if mod is None:
+            continue
+
+        if id(mod) in _converted:
+            # shared modules stay shared
+            convert_dic[name] = _converted[id(mod)][1]
+            continue
+
         n_grand_children = len(list(mod.named_children()))
 
         if n_grand_children > 0:
-            convert_dic[name] = convert_to_digital(mod, conversion_set, full_name, inplace=True)
+            convert_dic[name] = convert_to_digital(
+                mod, conversion_set, full_name, inplace=True, _converted=_converted
+            )
+            _converted[id(mod)] = (mod, convert_dic[name])
             continue
 
         if mod.__class__ not in conversion_set:
@@ -308,6 +341,7 @@ def convert_to_digital(
                 "analog layers that support `to_digital` conversion."
             )
         convert_dic[name] = _keep_training_mode(mod, mod.to_digital(mod))  # type: ignore
+        _converted[id(mod)] = (mod, convert_dic[name])
 
     for name, new_mod in convert_dic.items():
         module._modules[name] = new_mod  # pylint: disable=protected-access
-- 
2.43.0


From 8071822b31840f9b02800313272893aaa86dc664 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 01:52:14 +0000
Subject: [PATCH 067/139] fix: IR-drop tile with an odd number of outputs

---
 src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py b/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py
index 2207b7e..88ac06b 100644
--- a/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py
+++ b/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py
@@ -84,8 +84,9 @@ class AnalogMVMIRDropT(AnalogMVM):
             IR drop in both directions (to north and south ADCs) in a
             symmetric tile design.
         """
-        shape = Size(mvm1.shape[0:-1]) + Size([2 * mvm1.shape[-1]])
-        mvm = empty(*shape).to(mvm1.device)
+        # the first has one more column if the number of columns is odd
+        shape = Size(mvm1.shape[0:-1]) + Size([mvm1.shape[-1] + mvm2.shape[-1]])
+        mvm = empty(*shape, dtype=mvm1.dtype).to(mvm1.device)
         mvm[..., 0::2] = mvm1
         mvm[..., 1::2] = mvm2
         return mvm
-- 
2.43.0


From 73de24abcfe696d3a6ebf3d9837052a26dc37e77 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 01:52:14 +0000
Subject: [PATCH 068/139] fix: padding of a single row for the IR-drop tile

---
 src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py b/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py
index 88ac06b..08d7e86 100644
--- a/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py
+++ b/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py
@@ -107,10 +107,10 @@ class AnalogMVMIRDropT(AnalogMVM):
         Returns:
             Tuple[Tensor] containing the symmetrically 0-padded input_ and weight
         """
-        pad1 = int((phys_input_size - weight.shape[0]) / 2)
-        if pad1 == 0:
-            return input_, weight
+        pad1 = (phys_input_size - weight.shape[0]) // 2
         pad2 = phys_input_size - weight.shape[0] - pad1
+        if pad1 == 0 and pad2 == 0:
+            return input_, weight
         input_pad_tuple = (pad1, pad2) + (0, 0) * (input_.dim() - 1)
         input_ = pad(input_, input_pad_tuple, "constant", 0)
         weight = pad(weight, (0, 0, pad1, pad2), "constant", 0)
-- 
2.43.0


From 0b88a3ab7b963e85220b19d819c351068122aacd Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 01:52:14 +0000
Subject: [PATCH 069/139] fix: IR-drop tile with inputs of more than two
 dimensions

---
 src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py b/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py
index 08d7e86..5bab198 100644
--- a/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py
+++ b/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py
@@ -351,7 +351,7 @@ class AnalogMVMIRDropT(AnalogMVM):
 
         out_sh = Size(input_.shape[0:-1]) + Size([gp_2d.shape[1]]) + Size([time_steps])
 
-        input_ = input_.view(-1, input_.shape[-1])  # make 2d
+        input_ = input_.reshape(-1, input_.shape[-1])  # make 2d
 
         if use_extension and extension_ops is not None:
             # use C++ code for speedup if available
@@ -480,7 +480,9 @@ class AnalogMVMIRDropT(AnalogMVM):
 
         g_lst, params = g_converter.convert_to_conductances(new_weight)
 
-        mvm = zeros((input_.shape[0], g_lst[0].shape[1])).to(input_.device)
+        mvm = zeros(
+            input_.shape[:-1] + (g_lst[0].shape[1],), dtype=input_.dtype, device=input_.device
+        )
         # (f1, (gp1, gm1)), (f2, (gp2, gm2), ... , (fn, (gpn, gmn)) # low to highest significance
         for f_factor, g_lst_pair in zip(params.get("f_lst", [1.0]), zip(g_lst[::2], g_lst[1::2])):
             vth_nd, rth_nd = cls._thev_equiv(
-- 
2.43.0


From 5cc629aacf09fbae38487d5fc760bab5787caa2e Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 01:52:14 +0000
Subject: [PATCH 070/139] fix: input dependent read noise of the IR-drop tile
 with zero inputs

---
 src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py b/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py
index 5bab198..f225ebb 100644
--- a/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py
+++ b/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py
@@ -247,7 +247,7 @@ class AnalogMVMIRDropT(AnalogMVM):
         if t_integration > 0.:
             x = torch_log10(t_integration)
         else:
-            torch.tensor(0., dtype=t_integration.dtype, device=t_integration.device)
+            x = torch.tensor(0., dtype=t_integration.dtype, device=t_integration.device)
 
         # Convert weights into conductance units
         conductances_lst, params = g_converter.convert_to_conductances(weight)
-- 
2.43.0


From 4b2a35270fa8081141c1da3f290d215a9e471788 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 01:52:14 +0000
Subject: [PATCH 071/139] fix: split_mode_bit_shift is a field of the IR-drop
 IO parameters

---
 src/aihwkit/simulator/parameters/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/parameters/io.py b/src/aihwkit/simulator/parameters/io.py
index 9eb1f57..83b4860 100644
--- a/src/aihwkit/simulator/parameters/io.py
+++ b/src/aihwkit/simulator/parameters/io.py
@@ -330,7 +330,7 @@ class IOParametersIRDropT(IOParameters):
     of MAC tile.
     """
 
-    split_mode_bit_shift = 3
+    split_mode_bit_shift: int = 3
     """Number of bits in in LSB (remainder) that is fed to MVM
     tile in first phase of split mode PWM/DAC operation. Split mode
     PWM/DAC operation increases throughput / energy efficiency
-- 
2.43.0


From 91135ba2a565fcce5f252af98c274e885cebb08a Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 01:52:14 +0000
Subject: [PATCH 072/139] fix: backward of the float precision cast

---
 src/aihwkit/extension/functions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/aihwkit/extension/functions.py b/src/aihwkit/extension/functions.py
index 1b91a45..5fd7ca8 100644
--- a/src/aihwkit/extension/functions.py
+++ b/src/aihwkit/extension/functions.py
@@ -8,7 +8,7 @@
 
 """AIHWKIT Extension functions"""
 
-from typing import Any
+from typing import Any, Tuple
 
 from torch import Tensor
 from torch.autograd import Function
@@ -27,9 +27,9 @@ class FloatPrecisionCastFunction(Function):
         return ops.float_precision_cast(input_, exponent, mantissa, saturate_to_inf)
 
     @staticmethod
-    def backward(ctx: Any, grad_in: Tensor) -> Tensor:
+    def backward(ctx: Any, grad_in: Tensor) -> Tuple[Tensor, None, None, None]:
         # pylint: disable=unused-argument, arguments-differ
-        return grad_in
+        return grad_in, None, None, None
 
 
 class FloatPrecisionCast(Module):
-- 
2.43.0


From 1fca5c54b6dd259e3234e2ea92f6d8a6bf1249d9 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 01:52:14 +0000
Subject: [PATCH 073/139] fix: clipping of the float precision cast goes to the
 largest value

---
 src/aihwkit/extension/extension_src/ops/float_prec_common.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/aihwkit/extension/extension_src/ops/float_prec_common.h b/src/aihwkit/extension/extension_src/ops/float_prec_common.h
index 8466e21..30162b8 100644
--- a/src/aihwkit/extension/extension_src/ops/float_prec_common.h
+++ b/src/aihwkit/extension/extension_src/ops/float_prec_common.h
@@ -26,7 +26,9 @@
     x_int =                                                                                        \
         f32_exp >= (int)sat_el ? ((x_int | (uint32_t)0x7F800000) & (uint32_t)0xFF800000) : x_int;  \
   } else {                                                                                         \
-    x_int = f32_exp >= (int)sat_el ? (sat_exp | (x_int & ~((uint32_t)0x7F800000))) : x_int;        \
+    x_int = f32_exp > (int)sat_el                                                                  \
+                ? (sat_exp | (x_int & (uint32_t)0x80000000) | (0x007FFFFF & valid_msk))            \
+                : x_int;                                                                           \
   }                                                                                                \
   x_int = f32_exp <= 0 ? 0 : x_int;                                                                \
   float Y = ((union {                                                                              \
-- 
2.43.0


From ec59ad9d2497f8ed18c579fd142a6aab0aff8e61 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 01:53:35 +0000
Subject: [PATCH 074/139] fix: pulse lengths of the IR-drop tile with round-off
 errors

---
 src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py b/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py
index f225ebb..cbed7dc 100644
--- a/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py
+++ b/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py
@@ -478,6 +478,10 @@ class AnalogMVMIRDropT(AnalogMVM):
 
         input_, new_weight = cls._pad_symmetric(input_, new_weight, phys_input_size=phys_input_size)
 
+        # slightly shorten the pulses, so that round-off errors of a discretized
+        # input do not cause an additional time step
+        input_ = sign(input_) * (torch_abs(input_) - 2e-3 * res).clamp(min=0.0)
+
         g_lst, params = g_converter.convert_to_conductances(new_weight)
 
         mvm = zeros(
-- 
2.43.0


From 3422f586964ffef886cde4c73b055acc71a7abef Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 01:55:09 +0000
Subject: [PATCH 075/139] fix: bit-wise input of the IR-drop tile does not lose
 the highest bit

---
 src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py b/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py
index cbed7dc..30ffd0c 100644
--- a/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py
+++ b/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py
@@ -9,7 +9,7 @@
 """Low level implementation of torch-based tile."""
 
 from typing import Any, Tuple, List, Optional
-from math import log2
+from math import ceil, log2
 
 from torch import (
     Tensor,
@@ -202,7 +202,9 @@ class AnalogMVMIRDropT(AnalogMVM):
 
         elif io_pars.mv_type == AnalogMVType.BIT_WISE:
             int_input = prepared_input / (2. * res)
-            n_bits = int(log2(1.0 / res + 2)) - 1
+            # number of bits needed for the largest integer (in case that inp_res
+            # is not of form 2**n_bits - 2)
+            n_bits = int(ceil(log2(1.0 / res + 2))) - 1
             prepared_input = []
             for _ in range(n_bits):
                 # fmod for +/- remainders
-- 
2.43.0


From ad2778b8790f82c89b46edbb56aecb91bf7be543 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 01:55:09 +0000
Subject: [PATCH 076/139] fix: input bound of the IR-drop tile

---
 .../simulator/tiles/analog_mvm_irdrop_t.py    | 28 +++++++++----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py b/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py
index 30ffd0c..b11a5ba 100644
--- a/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py
+++ b/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py
@@ -181,16 +181,16 @@ class AnalogMVMIRDropT(AnalogMVM):
                     f"cannot exceed equivalent bits specified by inp_res={n_bits}."
                 )
 
-            int_input = prepared_input / (2 * res)
+            int_input = prepared_input / (2 * res * io_pars.inp_bound)
 
             upper_bits = sign(int_input) * floor(
                 torch_abs(int_input) / (2**io_pars.split_mode_bit_shift)
             )
-            prepared_input_msb = upper_bits * (2 * res)
+            prepared_input_msb = upper_bits * (2 * res * io_pars.inp_bound)
 
             # +/- remainders
             lower_bits = fmod(int_input, 2**io_pars.split_mode_bit_shift)
-            prepared_input_lsb = lower_bits * (2 * res)
+            prepared_input_lsb = lower_bits * (2 * res * io_pars.inp_bound)
 
             if not allclose(
                 (2**io_pars.split_mode_bit_shift) * prepared_input_msb + prepared_input_lsb,
@@ -201,7 +201,7 @@ class AnalogMVMIRDropT(AnalogMVM):
             prepared_input = [prepared_input_lsb, prepared_input_msb]
 
         elif io_pars.mv_type == AnalogMVType.BIT_WISE:
-            int_input = prepared_input / (2. * res)
+            int_input = prepared_input / (2. * res * io_pars.inp_bound)
             # number of bits needed for the largest integer (in case that inp_res
             # is not of form 2**n_bits - 2)
             n_bits = int(ceil(log2(1.0 / res + 2))) - 1
@@ -210,7 +210,7 @@ class AnalogMVMIRDropT(AnalogMVM):
                 # fmod for +/- remainders
                 lsb = fmod(int_input, 2)
                 int_input = sign(int_input) * floor(torch_abs(int_input) / 2)
-                prepared_input.append(lsb * (2 * res))
+                prepared_input.append(lsb * (2 * res * io_pars.inp_bound))
 
         elif io_pars.mv_type in [
             AnalogMVType.POS_NEG_SEPARATE,
@@ -244,7 +244,7 @@ class AnalogMVMIRDropT(AnalogMVM):
                                            3.07015063e-08, -6.77079241e-08, 1.17763144e-07]
 
         # First, convert activations/inputs into integer ns units
-        t_integration = torch_mean(torch_abs(input_) / (2 * res))
+        t_integration = torch_mean(torch_abs(input_) / (2 * res * io_pars.inp_bound))
 
         if t_integration > 0.:
             x = torch_log10(t_integration)
@@ -455,7 +455,7 @@ class AnalogMVMIRDropT(AnalogMVM):
         """
         ir_drop_rs = ir_drop * io_pars.ir_drop_rs
         res = cls._get_res(io_pars.inp_res)
-        bit_res = io_pars.inp_bound / res
+        bit_res = 1.0 / res
 
         if io_pars.apply_xdep_pcm_read_noise:
             weight = cls._apply_xdep_pcm_read_noise(weight, input_, io_pars, g_converter, res)
@@ -482,7 +482,7 @@ class AnalogMVMIRDropT(AnalogMVM):
 
         # slightly shorten the pulses, so that round-off errors of a discretized
         # input do not cause an additional time step
-        input_ = sign(input_) * (torch_abs(input_) - 2e-3 * res).clamp(min=0.0)
+        input_ = sign(input_) * (torch_abs(input_) - 2e-3 * res * io_pars.inp_bound).clamp(min=0.0)
 
         g_lst, params = g_converter.convert_to_conductances(new_weight)
 
@@ -539,7 +539,7 @@ class AnalogMVMIRDropT(AnalogMVM):
 
         mvm /= params['scale_ratio']    # conductance normalization
         mvm /= 0.2                      # hardware normalization
-        mvm /= bit_res / 2.0            # normalize
+        mvm /= bit_res / 2.0 / io_pars.inp_bound            # normalize
         return mvm
 
     @classmethod
@@ -591,7 +591,7 @@ class AnalogMVMIRDropT(AnalogMVM):
             io_pars=io_pars,
         )
         res = cls._get_res(io_pars.inp_res)
-        bit_res = io_pars.inp_bound / res + 2
+        bit_res = 1.0 / res + 2
 
         if io_pars.mv_type == AnalogMVType.ONE_PASS:
             # - Perform the noisy MVM
@@ -601,7 +601,7 @@ class AnalogMVMIRDropT(AnalogMVM):
                 trans,
                 io_pars,
                 ir_drop=ir_drop,
-                t_max=1.0,
+                t_max=io_pars.inp_bound,
                 time_steps=int((bit_res / 2) * io_pars.ir_drop_time_step_resolution_scale),
                 phys_input_size=phys_input_size,
                 g_converter=g_converter,
@@ -614,7 +614,7 @@ class AnalogMVMIRDropT(AnalogMVM):
             [prepared_input_lsb, prepared_input_msb] = prepared_input
 
             time_steps = int(2**io_pars.split_mode_bit_shift)
-            t_max = (2 * res) * (2**io_pars.split_mode_bit_shift - 1)
+            t_max = (2 * res * io_pars.inp_bound) * (2**io_pars.split_mode_bit_shift - 1)
             out_values_lsb = cls._matmul_irdrop(
                 weight,
                 prepared_input_lsb,
@@ -633,7 +633,7 @@ class AnalogMVMIRDropT(AnalogMVM):
             time_steps = 2 ** int(
                 log2(bit_res) - io_pars.split_mode_bit_shift - 1
             )  # minus 1 for sign bit
-            t_max = (2 * res) * (time_steps - 1)
+            t_max = (2 * res * io_pars.inp_bound) * (time_steps - 1)
             out_values_msb = cls._matmul_irdrop(
                 weight,
                 prepared_input_msb,
@@ -663,7 +663,7 @@ class AnalogMVMIRDropT(AnalogMVM):
                     trans,
                     io_pars,
                     ir_drop=ir_drop,
-                    t_max=2 * res,
+                    t_max=2 * res * io_pars.inp_bound,
                     time_steps=2,
                     phys_input_size=phys_input_size,
                     g_converter=g_converter,
-- 
2.43.0


From 0e0891bb8d3367ff2b0dff1852568736ce3d31f0 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 02:00:14 +0000
Subject: [PATCH 077/139] fix: IR-drop tile with non-contiguous inputs

---
 src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py b/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py
index b11a5ba..fbf3b93 100644
--- a/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py
+++ b/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py
@@ -353,7 +353,7 @@ class AnalogMVMIRDropT(AnalogMVM):
 
         out_sh = Size(input_.shape[0:-1]) + Size([gp_2d.shape[1]]) + Size([time_steps])
 
-        input_ = input_.reshape(-1, input_.shape[-1])  # make 2d
+        input_ = input_.reshape(-1, input_.shape[-1]).contiguous()  # make 2d
 
         if use_extension and extension_ops is not None:
             # use C++ code for speedup if available
-- 
2.43.0


From c1e98b147c12d83ee89002e0363c3721c7808c55 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 02:01:20 +0000
Subject: [PATCH 078/139] fix: round-off errors in the partial inputs of the
 IR-drop tile

---
 .../simulator/tiles/analog_mvm_irdrop_t.py    | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py b/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py
index fbf3b93..5ade4ea 100644
--- a/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py
+++ b/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py
@@ -116,6 +116,20 @@ class AnalogMVMIRDropT(AnalogMVM):
         weight = pad(weight, (0, 0, pad1, pad2), "constant", 0)
         return input_, weight
 
+    @classmethod
+    def _correct_round_off(cls, int_input: Tensor) -> Tensor:
+        """Removes round-off errors of an already discretized input.
+
+        Args:
+            int_input: input in units of the discretization
+
+        Returns:
+            Input where values very close to an integer are replaced by the
+            integer. The gradient is not changed.
+        """
+        error = (int_input.round() - int_input).detach()
+        return int_input + torch.where(torch_abs(error) < 1e-2, error, torch.zeros_like(error))
+
     @classmethod
     def _prepare_inputs(
         cls,
@@ -181,7 +195,8 @@ class AnalogMVMIRDropT(AnalogMVM):
                     f"cannot exceed equivalent bits specified by inp_res={n_bits}."
                 )
 
-            int_input = prepared_input / (2 * res * io_pars.inp_bound)
+            int_input = cls._correct_round_off(
+                prepared_input / (2 * res * io_pars.inp_bound))
 
             upper_bits = sign(int_input) * floor(
                 torch_abs(int_input) / (2**io_pars.split_mode_bit_shift)
@@ -201,7 +216,8 @@ class AnalogMVMIRDropT(AnalogMVM):
             prepared_input = [prepared_input_lsb, prepared_input_msb]
 
         elif io_pars.mv_type == AnalogMVType.BIT_WISE:
-            int_input = prepared_input / (2. * res * io_pars.inp_bound)
+            int_input = cls._correct_round_off(
+                prepared_input / (2. * res * io_pars.inp_bound))
             # number of bits needed for the largest integer (in case that inp_res
             # is not of form 2**n_bits - 2)
             n_bits = int(ceil(log2(1.0 / res + 2))) - 1
-- 
2.43.0


From 44e077cda2c105fb1495c9fe04b49bcad391d617 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 02:05:28 +0000
Subject: [PATCH 079/139] fix: data type of the analog matrix

---
 src/aihwkit/linalg/matrix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/linalg/matrix.py b/src/aihwkit/linalg/matrix.py
index 02e7436..908c2ed 100644
--- a/src/aihwkit/linalg/matrix.py
+++ b/src/aihwkit/linalg/matrix.py
@@ -12,7 +12,7 @@ from scipy.sparse.linalg import LinearOperator
 from numpy import ndarray, dtype
 
 # Imports from PyTorch.
-from torch import Tensor, from_numpy
+from torch import Tensor, from_numpy, tensor as from_torch
 from torch.autograd import no_grad
 
 # Imports from aihwkit.
@@ -108,7 +108,7 @@ class AnalogMatrix(LinearOperator):
     @property
     def dtype(self) -> dtype:
         """Return data type."""
-        return self._tile.rpu_config.get_data_type().as_torch()
+        return from_torch([], dtype=self._tile.get_dtype()).numpy().dtype
 
     def ger(
         self, x_matrix: Union[Tensor, ndarray], d_matrix: Union[Tensor, ndarray], alpha: float = 1.0
-- 
2.43.0


From 2fcc1cde5b49894635945e0dce9973b6d74f6422 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 02:05:28 +0000
Subject: [PATCH 080/139] fix: products of the analog matrix as linear operator

---
 src/aihwkit/linalg/matrix.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/aihwkit/linalg/matrix.py b/src/aihwkit/linalg/matrix.py
index 908c2ed..040b13a 100644
--- a/src/aihwkit/linalg/matrix.py
+++ b/src/aihwkit/linalg/matrix.py
@@ -89,16 +89,18 @@ class AnalogMatrix(LinearOperator):
         return output
 
     def _matmat(self, X: Union[Tensor, ndarray]) -> Union[Tensor, ndarray]:
-        return self @ X
+        # vectors are in the rows when using the tile
+        return (self @ X.T).T
 
     def _matvec(self, x: Union[Tensor, ndarray]) -> Union[Tensor, ndarray]:
-        return self @ x
+        return self @ x.reshape(-1)
 
     def _rmatvec(self, x: Union[Tensor, ndarray]) -> Union[Tensor, ndarray]:
-        return x @ self
+        return x.reshape(-1) @ self
 
     def _rmatmat(self, X: Union[Tensor, ndarray]) -> Union[Tensor, ndarray]:
-        return X @ self
+        # vectors are in the rows when using the tile
+        return (X.T @ self).T
 
     @property
     def shape(self) -> Tuple[int, int]:
-- 
2.43.0


From 5ad35ab985eabb5d470c83212ef87ea628446b61 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 02:05:28 +0000
Subject: [PATCH 081/139] fix: analog summary without restriction of the tile
 size

---
 src/aihwkit/utils/analog_info.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/utils/analog_info.py b/src/aihwkit/utils/analog_info.py
index d25c72d..ffa6a73 100644
--- a/src/aihwkit/utils/analog_info.py
+++ b/src/aihwkit/utils/analog_info.py
@@ -61,8 +61,9 @@ class TileInfo:
     def __init__(self, tile: TileModule, is_mapped: bool):
         self.log_in_size = tile.in_size
         self.log_out_size = tile.out_size
-        self.phy_in_size = tile.rpu_config.mapping.max_input_size
-        self.phy_out_size = tile.rpu_config.mapping.max_output_size
+        # a maximal size of zero means that the size is not restricted
+        self.phy_in_size = tile.rpu_config.mapping.max_input_size or tile.in_size
+        self.phy_out_size = tile.rpu_config.mapping.max_output_size or tile.out_size
         self.is_mapped = is_mapped
         max_space = self.phy_in_size * self.phy_out_size
         log_space = self.log_in_size * self.log_out_size
-- 
2.43.0


From 8a3ab1ae60ab66c48564fc900e9e82e9d6a4f926 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 02:05:28 +0000
Subject: [PATCH 082/139] fix: analog summary does not change the model

---
 src/aihwkit/utils/analog_info.py | 38 ++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/aihwkit/utils/analog_info.py b/src/aihwkit/utils/analog_info.py
index ffa6a73..b967e4d 100644
--- a/src/aihwkit/utils/analog_info.py
+++ b/src/aihwkit/utils/analog_info.py
@@ -16,7 +16,7 @@ import operator
 from typing import Optional, Any, List
 
 # Imports from PyTorch.
-from torch import zeros
+from torch import no_grad, zeros
 from torch.nn import Module
 
 from aihwkit.nn.modules.base import AnalogLayerBase
@@ -200,14 +200,17 @@ class AnalogInfo:
         self.total_tile_number = self.calculate_num_tiles()
         self.total_nb_analog = self.calculate_num_analog()
 
-    def register_hooks_recursively(self, module: Module, hook: Any) -> None:
+    def register_hooks_recursively(self, module: Module, hook: Any) -> List[Any]:
         """Hooks the function into all layers with no children (or
         only analog tiles as childrens).
+
+        Returns:
+            List of the handles of the hooks
         """
 
         if len(list(module.children())) == 0:
-            module.register_forward_hook(hook)
-        elif (
+            return [module.register_forward_hook(hook)]
+        if (
             isinstance(module, AnalogLayerBase)
             and not module.IS_CONTAINER
             and len(
@@ -215,10 +218,11 @@ class AnalogInfo:
             )
             == 0
         ):  # type: ignore
-            module.register_forward_hook(hook)  # type: ignore
-        else:
-            for layer in module.children():
-                self.register_hooks_recursively(layer, hook)
+            return [module.register_forward_hook(hook)]  # type: ignore
+        handles = []
+        for layer in module.children():
+            handles.extend(self.register_hooks_recursively(layer, hook))
+        return handles
 
     def create_layer_summary(self) -> List[LayerInfo]:
         """Create the layer summary list.
@@ -234,10 +238,20 @@ class AnalogInfo:
             output_size = list(_output.size())
             layer_summary.append(LayerInfo(_, self.rpu_config, input_size, output_size))
 
-        self.register_hooks_recursively(self.model, get_size_hook)
-        device = next(self.model.parameters()).device
-        dummy_var = zeros(self.input_size).to(device)
-        self.model(dummy_var)
+        # the state of the model should not be changed by the dummy forward pass
+        modes = [(module, module.training) for module in self.model.modules()]
+        handles = self.register_hooks_recursively(self.model, get_size_hook)
+        try:
+            self.model.eval()
+            device = next(self.model.parameters()).device
+            dummy_var = zeros(self.input_size).to(device)
+            with no_grad():
+                self.model(dummy_var)
+        finally:
+            for handle in handles:
+                handle.remove()
+            for module, training in modes:
+                module.training = training
         return layer_summary
 
     def calculate_num_tiles(self) -> int:
-- 
2.43.0


From 6f2e69d4792f36fda50b1ee53c29426ea4de0226 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 02:05:28 +0000
Subject: [PATCH 083/139] fix: analog summary counts layers that are used
 multiple times once

---
 src/aihwkit/utils/analog_info.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/aihwkit/utils/analog_info.py b/src/aihwkit/utils/analog_info.py
index b967e4d..75405ac 100644
--- a/src/aihwkit/utils/analog_info.py
+++ b/src/aihwkit/utils/analog_info.py
@@ -256,17 +256,13 @@ class AnalogInfo:
 
     def calculate_num_tiles(self) -> int:
         """Calculate the total number of tiles needed by the model."""
-        total_tile_number = 0
-        for x in self.layer_summary:
-            total_tile_number += x.num_tiles
-        return total_tile_number
+        # layers might be used multiple times
+        num_tiles = {id(x.module): x.num_tiles for x in self.layer_summary}
+        return sum(num_tiles.values())
 
     def calculate_num_analog(self) -> int:
         """Calculate the number of analog layers."""
-        total_nb_analog = 0
-        for x in self.layer_summary:
-            total_nb_analog += 1 if x.isanalog else 0
-        return total_nb_analog
+        return len({id(x.module) for x in self.layer_summary if x.isanalog})
 
     def __repr__(self) -> str:
         """Print summary results."""
-- 
2.43.0


From c6c0d1a5106d6e2502442a91046fe117b64e1217 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 02:05:28 +0000
Subject: [PATCH 084/139] fix: fusion import of rows with constant weights

---
 src/aihwkit/inference/converter/fusion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/inference/converter/fusion.py b/src/aihwkit/inference/converter/fusion.py
index b85cc10..0b5c776 100644
--- a/src/aihwkit/inference/converter/fusion.py
+++ b/src/aihwkit/inference/converter/fusion.py
@@ -68,7 +68,7 @@ class FusionConductanceConverter(BaseConductanceConverter):
 
         weights = conductances[0] * sign(params["original_weights"])
         for col in range(weights.shape[0]):
-            reg = LinearRegression().fit(
+            reg = LinearRegression(fit_intercept=False).fit(
                 weights[col].flatten().numpy().reshape(-1, 1),
                 params["original_weights"][col].flatten().numpy().reshape(-1, 1),
             )
-- 
2.43.0


From 1816c03ba1361bbd958ededcc77e4925136090f4 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 02:16:00 +0000
Subject: [PATCH 085/139] fix: construction seed of mixed-precision
 configurations

---
 src/aihwkit/simulator/configs/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/configs/helpers.py b/src/aihwkit/simulator/configs/helpers.py
index fc27168..581bdff 100644
--- a/src/aihwkit/simulator/configs/helpers.py
+++ b/src/aihwkit/simulator/configs/helpers.py
@@ -250,7 +250,7 @@ def build_config(
         )
     if algorithm.lower() in ["mp", "mixed-precision"]:
         return DigitalRankUpdateRPUConfig(
-            device=MixedPrecisionCompound(device=device(construction_seed=construction_seed)),
+            device=MixedPrecisionCompound(device=device(), construction_seed=construction_seed),
             forward=io_parameters(),
             backward=io_parameters(),
             update=up_parameters(),
-- 
2.43.0


From c47b85f008c9ad10aa56d06e8487a3126e6e016b Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 02:20:18 +0000
Subject: [PATCH 086/139] fix: evaluation does not update the average of the
 noise management

---
 src/rpucuda/rpu_forward_backward_pass.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/rpucuda/rpu_forward_backward_pass.cpp b/src/rpucuda/rpu_forward_backward_pass.cpp
index e414bc4..2a813f6 100644
--- a/src/rpucuda/rpu_forward_backward_pass.cpp
+++ b/src/rpucuda/rpu_forward_backward_pass.cpp
@@ -121,7 +121,8 @@ inline T computeNoiseManagement(
     const int inc,
     const NoiseManagementType nm_type,
     T &auxilary_variable,
-    const IOMetaParameter<T> &io) {
+    const IOMetaParameter<T> &io,
+    const bool is_test = false) {
   if (nm_type == NoiseManagementType::None) {
     return 1.0;
   }
@@ -144,6 +145,10 @@ inline T computeNoiseManagement(
   case NoiseManagementType::AverageAbsMaxSingleValue: {
     int max_index = RPU::math::iamax<T>(size, input, inc);
     T amax_input_value = (T)fabsf(input[max_index * inc]);
+    if (is_test) {
+      // do not update the running average during testing
+      return auxilary_variable < (T)0.0 ? amax_input_value : auxilary_variable;
+    }
     if (auxilary_variable < (T)0.0) {
       auxilary_variable = amax_input_value;
     } else {
@@ -927,7 +932,8 @@ void ForwardBackwardPassIOManaged<T>::forwardVector(
     checked_implemented_ = true;
   }
   T nm_scale_value = computeNoiseManagement(
-      x_input, this->x_size_, x_inc, f_io_.noise_management, aux_nm_value_, f_io_);
+      x_input, this->x_size_, x_inc, f_io_.noise_management, aux_nm_value_, f_io_,
+      is_test);
   bool nm = f_io_.noise_management != NoiseManagementType::None;
   bool bm = f_io_.bound_management != BoundManagementType::None;
 
-- 
2.43.0


From bfb2fe686345c2383b313479cd7d722f6af112e8 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 03:01:53 +0000
Subject: [PATCH 087/139] fix: refuse first update index that is not a device
 of the unit cell

---
 src/rpucuda/rpu_vector_device.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rpucuda/rpu_vector_device.cpp b/src/rpucuda/rpu_vector_device.cpp
index fa3c74a..aa2c262 100644
--- a/src/rpucuda/rpu_vector_device.cpp
+++ b/src/rpucuda/rpu_vector_device.cpp
@@ -400,6 +400,9 @@ void VectorRPUDevice<T>::populate(const VectorRPUDeviceMetaParameter<T> &p, Real
   PulsedRPUDeviceBase<T>::populate(p, rng);
 
   auto &par = getPar();
+  if (par.first_update_idx < 0 || par.first_update_idx >= (int)par.vec_par.size()) {
+    RPU_FATAL("first_update_idx should be a valid index of the devices.");
+  }
   allocateContainers((int)par.vec_par.size()); // will set n_devices
   resetCounters(true);
 
-- 
2.43.0


From c2d05763af6df0c98d36a8bf61b7c4fee9e859f2 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 03:01:53 +0000
Subject: [PATCH 088/139] fix: raise the error when the bindings class is
 missing

---
 src/aihwkit/simulator/parameters/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/parameters/helpers.py b/src/aihwkit/simulator/parameters/helpers.py
index 9c6a9a2..d277d6e 100644
--- a/src/aihwkit/simulator/parameters/helpers.py
+++ b/src/aihwkit/simulator/parameters/helpers.py
@@ -57,7 +57,7 @@ def get_bindings_class(params: Any, data_type: RPUDataType) -> Optional[Type]:
         module = getattr(module, data_type.value)
     param_class = getattr(module, class_name, None)
     if param_class is None:
-        ConfigError(f"Cannot find requested class '{class_name}' in rpu_base module. ")
+        raise ConfigError(f"Cannot find requested class '{class_name}' in rpu_base module. ")
     return param_class
 
 
-- 
2.43.0


From c29f2976d2f3a3cc70b372f202e8e0e92afc2864 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 03:01:53 +0000
Subject: [PATCH 089/139] fix: building a reference unit cell does not modify
 its configuration

---
 src/aihwkit/simulator/configs/compounds.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/aihwkit/simulator/configs/compounds.py b/src/aihwkit/simulator/configs/compounds.py
index 26eab3b..7c1f61c 100644
--- a/src/aihwkit/simulator/configs/compounds.py
+++ b/src/aihwkit/simulator/configs/compounds.py
@@ -160,17 +160,15 @@ class ReferenceUnitCell(UnitCell):
         if not isinstance(self.unit_cell_devices, list):
             raise ConfigError("unit_cell_devices should be a list of devices")
 
-        if len(self.unit_cell_devices) > 2:
-            self.unit_cell_devices = self.unit_cell_devices[:2]
-        elif len(self.unit_cell_devices) == 1:
-            self.unit_cell_devices = [
-                self.unit_cell_devices[0],
-                deepcopy(self.unit_cell_devices[0]),
-            ]
-        elif len(self.unit_cell_devices) != 2:
+        unit_cell_devices = self.unit_cell_devices
+        if len(unit_cell_devices) > 2:
+            unit_cell_devices = unit_cell_devices[:2]
+        elif len(unit_cell_devices) == 1:
+            unit_cell_devices = [unit_cell_devices[0], deepcopy(unit_cell_devices[0])]
+        elif len(unit_cell_devices) != 2:
             raise ConfigError("ReferenceUnitCell expects two unit_cell_devices")
 
-        for param in self.unit_cell_devices:
+        for param in unit_cell_devices:
             device_parameters = param.as_bindings(data_type)
             if not vector_parameters.append_parameter(device_parameters):
                 raise ConfigError("Could not add unit cell device parameter")
-- 
2.43.0


From 6fb4325561a37c468d0778582978f5a1c1c61d95 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 03:01:53 +0000
Subject: [PATCH 090/139] fix: one-sided unit cell without devices gives a
 configuration error

---
 src/aihwkit/simulator/configs/compounds.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/aihwkit/simulator/configs/compounds.py b/src/aihwkit/simulator/configs/compounds.py
index 7c1f61c..e888130 100644
--- a/src/aihwkit/simulator/configs/compounds.py
+++ b/src/aihwkit/simulator/configs/compounds.py
@@ -273,12 +273,12 @@ class OneSidedUnitCell(UnitCell):
         if not isinstance(self.unit_cell_devices, list):
             raise ConfigError("unit_cell_devices should be a list of devices")
 
-        onesided_parameters = parameters_to_bindings(self, data_type)
-        device_parameter0 = self.unit_cell_devices[0].as_bindings(data_type)
-
         if len(self.unit_cell_devices) == 0 or len(self.unit_cell_devices) > 2:
             raise ConfigError("Need 1 or 2 unit_cell_devices")
 
+        onesided_parameters = parameters_to_bindings(self, data_type)
+        device_parameter0 = self.unit_cell_devices[0].as_bindings(data_type)
+
         if len(self.unit_cell_devices) == 1:
             device_parameter1 = device_parameter0
         else:
-- 
2.43.0


From 12ff5454540c569a9d6d971952820705964ac187 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 03:24:27 +0000
Subject: [PATCH 091/139] fix: devices of a unit cell do not use the shared
 random generator in parallel

---
 src/rpucuda/rpu_vector_device.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/rpucuda/rpu_vector_device.cpp b/src/rpucuda/rpu_vector_device.cpp
index aa2c262..3f5606b 100644
--- a/src/rpucuda/rpu_vector_device.cpp
+++ b/src/rpucuda/rpu_vector_device.cpp
@@ -554,8 +554,7 @@ void VectorRPUDevice<T>::decayWeights(T **weights, T alpha, bool bias_no_decay)
 
 template <typename T>
 void VectorRPUDevice<T>::driftWeights(T **weights, T time_since_last_call, RNG<T> &rng) {
-
-#pragma omp parallel for
+  // note: the random generator is shared between the devices
   for (int k = 0; k < (int)rpu_device_vec_.size(); k++) {
     rpu_device_vec_[k]->driftWeights(weights_vec_[k], time_since_last_call, rng);
   }
@@ -563,7 +562,6 @@ void VectorRPUDevice<T>::driftWeights(T **weights, T time_since_last_call, RNG<T
 }
 
 template <typename T> void VectorRPUDevice<T>::diffuseWeights(T **weights, RNG<T> &rng) {
-#pragma omp parallel for
   for (int k = 0; k < (int)rpu_device_vec_.size(); k++) {
     rpu_device_vec_[k]->diffuseWeights(weights_vec_[k], rng);
   }
@@ -581,7 +579,6 @@ template <typename T> void VectorRPUDevice<T>::clipWeights(T **weights, T clip)
 template <typename T>
 void VectorRPUDevice<T>::resetCols(
     T **weights, int start_col, int n_cols, T reset_prob, RealWorldRNG<T> &rng) {
-#pragma omp parallel for
   for (int k = 0; k < (int)rpu_device_vec_.size(); k++) {
     rpu_device_vec_[k]->resetCols(weights_vec_[k], start_col, n_cols, reset_prob, rng);
   }
-- 
2.43.0


From d4895d26341fec9ea20d8a4080eea33879d62f97 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 03:24:27 +0000
Subject: [PATCH 092/139] fix: refuse hidden update index that is not a device
 of the unit cell

---
 src/rpucuda/rpu_vector_device.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rpucuda/rpu_vector_device.cpp b/src/rpucuda/rpu_vector_device.cpp
index 3f5606b..82ebbfa 100644
--- a/src/rpucuda/rpu_vector_device.cpp
+++ b/src/rpucuda/rpu_vector_device.cpp
@@ -244,6 +244,9 @@ template <typename T> void VectorRPUDevice<T>::setHiddenWeights(const std::vecto
 
 template <typename T> void VectorRPUDevice<T>::setHiddenUpdateIdx(int idx) {
   // we only change the current idx
+  if (idx < 0 || idx >= n_devices_) {
+    RPU_FATAL("Hidden update index should be a valid index of the devices.");
+  }
   current_device_idx_ = idx;
 }
 
-- 
2.43.0


From bdf852893ebe3bbb8b505806fd90a59a72a7952f Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 03:24:27 +0000
Subject: [PATCH 093/139] fix: refuse tile sizes that are not positive

---
 src/rpucuda/rpu.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rpucuda/rpu.h b/src/rpucuda/rpu.h
index d22afb6..3126618 100644
--- a/src/rpucuda/rpu.h
+++ b/src/rpucuda/rpu.h
@@ -60,6 +60,9 @@ template <typename T> class RPUAbstract {
 public:
   RPUAbstract() : x_size_(0), d_size_(0) { std::fesetround(FE_TONEAREST); };
   explicit RPUAbstract(int x_size, int d_size) : x_size_(x_size), d_size_(d_size) {
+    if (x_size < 1 || d_size < 1) {
+      RPU_FATAL("Tile sizes should be positive.");
+    }
     std::fesetround(FE_TONEAREST);
   };
   virtual ~RPUAbstract() = default;
-- 
2.43.0


From 5913a4dff331bb993707739072bb12ee0a097578 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 03:24:27 +0000
Subject: [PATCH 094/139] fix: printing an analog tile without device raises
 instead of crashing

---
 src/rpucuda/rpu_pulsed.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rpucuda/rpu_pulsed.cpp b/src/rpucuda/rpu_pulsed.cpp
index 4a55552..9604c14 100644
--- a/src/rpucuda/rpu_pulsed.cpp
+++ b/src/rpucuda/rpu_pulsed.cpp
@@ -149,6 +149,7 @@ template <typename T> std::unique_ptr<AbstractRPUDevice<T>> RPUPulsed<T>::cloneD
 
 /*********************************************************************************/
 template <typename T> void RPUPulsed<T>::printParametersToStream(std::stringstream &ss) const {
+  CHECK_RPU_DEVICE_INIT;
   getMetaPar().printToStream(ss, !rpu_device_->usesUpdateParameter());
   ss << "Device:" << std::endl;
   rpu_device_->printToStream(ss);
-- 
2.43.0


From fafb9b76e42a4fda069cb6eac9c931c875b90459 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 03:24:27 +0000
Subject: [PATCH 095/139] fix: no integer overflow for a large number of
 columns to reset

---
 src/rpucuda/rpu_pulsed_device.cpp | 2 +-
 src/rpucuda/rpu_simple_device.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rpucuda/rpu_pulsed_device.cpp b/src/rpucuda/rpu_pulsed_device.cpp
index b1bfce5..455df87 100644
--- a/src/rpucuda/rpu_pulsed_device.cpp
+++ b/src/rpucuda/rpu_pulsed_device.cpp
@@ -474,7 +474,7 @@ void PulsedRPUDevice<T>::resetCols(
     T **weights, int start_col, int n_col_in, T reset_prob, RealWorldRNG<T> &rng) {
 
   T *w = getPar().usesPersistentWeight() ? w_persistent_[0] : weights[0];
-  int n_col = (n_col_in >= 0) ? n_col_in : this->x_size_;
+  int64_t n_col = (n_col_in >= 0) ? n_col_in : this->x_size_;
 
   T reset_std = getPar().reset_std;
   for (int j = 0; j < this->x_size_; ++j) {
diff --git a/src/rpucuda/rpu_simple_device.cpp b/src/rpucuda/rpu_simple_device.cpp
index ef96e2f..e599f99 100644
--- a/src/rpucuda/rpu_simple_device.cpp
+++ b/src/rpucuda/rpu_simple_device.cpp
@@ -150,7 +150,7 @@ void SimpleRPUDevice<T>::resetCols(
     T **weights, int start_col, int n_col_in, T reset_prob, RealWorldRNG<T> &rng) {
 
   T *w = weights[0];
-  int n_col = (n_col_in >= 0) ? n_col_in : this->x_size_;
+  int64_t n_col = (n_col_in >= 0) ? n_col_in : this->x_size_;
 
   T reset_std = getPar().reset_std;
   for (int j = 0; j < this->x_size_; ++j) {
-- 
2.43.0


From 285decf23882d71dc62a77ffe9aa19a45ec677f3 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 03:31:13 +0000
Subject: [PATCH 096/139] fix: index layouts and tensors that do not fit are
 refused instead of accessing wrong memory

---
 src/aihwkit/simulator/tiles/periphery.py | 40 +++++++++++++++++++++++-
 1 file changed, 39 insertions(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/periphery.py b/src/aihwkit/simulator/tiles/periphery.py
index 327f4f9..abf6814 100644
--- a/src/aihwkit/simulator/tiles/periphery.py
+++ b/src/aihwkit/simulator/tiles/periphery.py
@@ -13,6 +13,7 @@ from typing import Optional, Tuple, Union, Any, List
 from numpy import array
 
 from torch import (
+    Size,
     Tensor,
     as_tensor,
     cat,
@@ -25,6 +26,7 @@ from torch import (
     eye,
     randn,
     zeros,
+    int32,
     logical_or,
 )
 
@@ -1285,7 +1287,8 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
             image_sizes: [C_in, H_in, W_in, H_out, W_out] sizes
 
         Raises:
-            ValueError: if ``image_sizes`` does not have valid dimensions
+            ValueError: if ``image_sizes`` does not have valid dimensions or the
+                ``indices`` do not fit
             TileError: if the tile uses transposition or indexed not supported..
         """
         if isinstance(self.tile, SimulatorTile):
@@ -1299,11 +1302,40 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
 
         if self.in_trans or self.out_trans:
             raise TileError("Transposed indexed versions not supported (assumes NC(D)HW)")
+
+        # The simulator trusts the indices.
+        n_in = len(image_sizes) // 2 + 1
+        in_numel, out_numel = Size(image_sizes[:n_in]).numel(), Size(image_sizes[n_in:]).numel()
+        if (
+            indices.dtype != int32
+            or indices.numel() < self.tile.get_x_size() * out_numel
+            or (indices.numel() and (indices.min() < 0 or indices.max() > in_numel + 1))
+        ):
+            raise ValueError("indices do not fit to the image sizes and the size of the tile")
+
         self.analog_ctx.set_indexed()
         self.image_sizes = image_sizes
         self.analog_ctx.indexed_layout = (indices, image_sizes)
         self.tile.set_matrix_indices(indices)
 
+    def _check_indexed(
+        self, x_input: Optional[Tensor] = None, d_input: Optional[Tensor] = None
+    ) -> None:
+        """Check whether the tensors have the sizes of the current index.
+
+        Raises:
+            TileError: if not
+        """
+        n_in = len(self.image_sizes) // 2 + 1
+        for tensor, sizes in (
+            (x_input, self.image_sizes[:n_in]),
+            (d_input, [self.out_size] + list(self.image_sizes[n_in:])),
+        ):
+            if tensor is not None and list(tensor.shape[1:]) != list(sizes):
+                raise TileError(f"Expected [N, {sizes}] tensor but got {list(tensor.shape)}")
+        if x_input is not None and d_input is not None and x_input.size(0) != d_input.size(0):
+            raise TileError("Batch dimensions mismatch")
+
     @no_grad()
     def joint_forward_indexed(
         self, x_input: Tensor, is_test: bool = False, ctx: Any = None
@@ -1328,6 +1360,7 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
         if not self.image_sizes:
             raise TileError("self.image_sizes is not initialized. Please use set_indexed()")
 
+        self._check_indexed(x_input)
         n_batch = x_input.size(0)
         channel_out = self.out_size
 
@@ -1369,6 +1402,7 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
         if not self.image_sizes:
             raise TileError("self.image_sizes is not initialized. Please use set_indexed()")
 
+        self._check_indexed(d_input=d_input)
         n_batch = d_input.size(0)
 
         if len(self.image_sizes) == 3:
@@ -1400,6 +1434,10 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
         Returns:
             None
         """
+        if not self.image_sizes:
+            raise TileError("self.image_sizes is not initialized. Please use set_indexed()")
+
+        self._check_indexed(x_input, d_input)
         x_input, d_input = self.pre_update(x_input, 1, d_input, 1)
         return self.tile.update_indexed(x_input, d_input, self.non_blocking)  # type: ignore
 
-- 
2.43.0


From f8413c0c1f0f7c3c429de0cc565929ebc1280a1f Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 03:31:13 +0000
Subject: [PATCH 097/139] fix: convolutions accept an empty batch

---
 src/aihwkit/nn/modules/conv.py                | 14 +++++------
 src/aihwkit/nn/modules/conv_mapped.py         | 14 +++++------
 .../simulator/rpu_base_src/rpu_base_tiles.cpp | 24 +++++++++++++++++++
 3 files changed, 36 insertions(+), 16 deletions(-)

diff --git a/src/aihwkit/nn/modules/conv.py b/src/aihwkit/nn/modules/conv.py
index efa6136..fba8d8e 100644
--- a/src/aihwkit/nn/modules/conv.py
+++ b/src/aihwkit/nn/modules/conv.py
@@ -181,12 +181,10 @@ class _AnalogConvNd(AnalogLayerBase, _ConvNd):
         ).transpose(-1, -2)
 
         out = self.analog_module(x_input_).transpose(-1, -2)
-        out_size = (
-            im_shape[-2] + 2 * self.padding[0] - self.dilation[0] * (self.kernel_size[0] - 1) - 1
-        ) // self.stride[0] + 1
+        out_size = [self.get_image_size(im_shape[i - 2], i) for i in range(2)]
         if len(im_shape) == 3:
-            return out.view(self.out_channels, out_size, -1)
-        return out.view(im_shape[0], self.out_channels, out_size, -1)
+            return out.view(self.out_channels, *out_size)
+        return out.view(im_shape[0], self.out_channels, *out_size)
 
 
 class AnalogConv1d(_AnalogConvNd):
@@ -349,7 +347,7 @@ class AnalogConv1d(_AnalogConvNd):
             image_sizes: image sizes for the analog tile
             input_size: size of the current input
         """
-        input_size = x_input.numel() / x_input.size(0)
+        input_size = x_input.shape[1:].numel()
 
         # pytorch just always uses NCHW order
         fold_indices = arange(2, x_input.size(2) + 2, dtype=float64).detach()
@@ -546,7 +544,7 @@ class AnalogConv2d(_AnalogConvNd):
             image_sizes: image sizes for the analog tile
             input_size: size of the current input
         """
-        input_size = x_input.numel() / x_input.size(0)
+        input_size = x_input.shape[1:].numel()
 
         # pytorch just always uses NCHW order
         fold_indices = arange(2, input_size + 2, dtype=float64).detach()
@@ -742,7 +740,7 @@ class AnalogConv3d(_AnalogConvNd):
             input_size: size of the current input
         """
         # pylint: disable=too-many-locals
-        input_size = x_input.numel() / x_input.size(0)
+        input_size = x_input.shape[1:].numel()
 
         # pytorch just always uses NCDHW order
         fold_indices = arange(
diff --git a/src/aihwkit/nn/modules/conv_mapped.py b/src/aihwkit/nn/modules/conv_mapped.py
index d09c3f6..9db2f1b 100644
--- a/src/aihwkit/nn/modules/conv_mapped.py
+++ b/src/aihwkit/nn/modules/conv_mapped.py
@@ -195,7 +195,7 @@ class _AnalogConvNdMapped(AnalogLayerBase, _ConvNd):
             dimensional
 
         """
-        self.input_size = x_input.numel() / x_input.size(0)
+        self.input_size = x_input.shape[1:].numel()
         self.input_shape = x_input.shape[1:]
         if x_input.ndim < 3:
             raise ModuleError("Expect >2-dim inputs to convolutions")
@@ -223,10 +223,8 @@ class _AnalogConvNdMapped(AnalogLayerBase, _ConvNd):
 
         out = analog_tile(x_input_).transpose(1, 2)
 
-        out_im_size = (
-            im_shape[2] + 2 * self.padding[0] - self.dilation[0] * (self.kernel_size[0] - 1) - 1
-        ) // self.stride[0] + 1
-        return out.view(im_shape[0], analog_tile.out_size, out_im_size, -1)
+        out_im_size = [self.get_image_size(im_shape[i + 2], i) for i in range(2)]
+        return out.view(im_shape[0], analog_tile.out_size, *out_im_size)
 
     def forward(self, x_input: Tensor) -> Tensor:
         """Compute the forward pass."""
@@ -508,7 +506,7 @@ class AnalogConv1dMapped(_AnalogConvNdMapped):
             image_sizes: image sizes for the analog tile
             input_size: size of the current input
         """
-        input_size = x_input.numel() / x_input.size(0)
+        input_size = x_input.shape[1:].numel()
 
         # pytorch just always uses NCHW order?
         fold_indices = arange(2, x_input.size(2) + 2, dtype=float64).detach()
@@ -711,7 +709,7 @@ class AnalogConv2dMapped(_AnalogConvNdMapped):
             image_sizes: image sizes for the analog tile
             input_size: size of the current input
         """
-        input_size = x_input.numel() / x_input.size(0)
+        input_size = x_input.shape[1:].numel()
 
         # pytorch just always uses NCHW order
         fold_indices = arange(2, input_size + 2, dtype=float64).detach()
@@ -919,7 +917,7 @@ class AnalogConv3dMapped(_AnalogConvNdMapped):
             input_size: size of the current input
         """
         # pylint: disable=too-many-locals
-        input_size = x_input.numel() / x_input.size(0)
+        input_size = x_input.shape[1:].numel()
 
         # pytorch just always uses NCDHW order
         fold_indices = arange(
diff --git a/src/aihwkit/simulator/rpu_base_src/rpu_base_tiles.cpp b/src/aihwkit/simulator/rpu_base_src/rpu_base_tiles.cpp
index c7ae7e5..085511f 100644
--- a/src/aihwkit/simulator/rpu_base_src/rpu_base_tiles.cpp
+++ b/src/aihwkit/simulator/rpu_base_src/rpu_base_tiles.cpp
@@ -622,6 +622,14 @@ void declare_rpu_tiles(py::module &m, std::string type_name_add) {
             CHECK_TORCH_INPUT(x_input);
             CHECK_TORCH_INPUT(d_tensor);
 
+            if (x_input.dim() < 3 || d_tensor.dim() < 3 || x_input.size(0) != d_tensor.size(0) ||
+                d_tensor.size(1) != self.getDSize()) {
+              throw std::runtime_error("Invalid x_input or d_tensor dimensions.");
+            }
+            if (x_input.numel() == 0 || d_tensor.numel() == 0) {
+              return d_tensor.zero_();
+            }
+
             int N = x_input.size(0); // batch
             int d_image_size = ((d_tensor.numel() / d_tensor.size(0)) / d_tensor.size(1));
 
@@ -658,6 +666,14 @@ void declare_rpu_tiles(py::module &m, std::string type_name_add) {
             CHECK_TORCH_INPUT(d_input);
             CHECK_TORCH_INPUT(x_tensor);
 
+            if (d_input.dim() < 3 || x_tensor.dim() < 3 || d_input.size(0) != x_tensor.size(0) ||
+                d_input.size(1) != self.getDSize()) {
+              throw std::runtime_error("Invalid d_input or x_tensor dimensions.");
+            }
+            if (d_input.numel() == 0 || x_tensor.numel() == 0) {
+              return x_tensor.zero_();
+            }
+
             int N = d_input.size(0); // batch
             int d_image_size = ((d_input.numel() / d_input.size(0)) / d_input.size(1));
 
@@ -692,6 +708,14 @@ void declare_rpu_tiles(py::module &m, std::string type_name_add) {
             CHECK_TORCH_INPUT(x_input);
             CHECK_TORCH_INPUT(d_input);
 
+            if (x_input.dim() < 3 || d_input.dim() < 3 || x_input.size(0) != d_input.size(0) ||
+                d_input.size(1) != self.getDSize()) {
+              throw std::runtime_error("Invalid x_input or d_input dimensions.");
+            }
+            if (x_input.numel() == 0 || d_input.numel() == 0) {
+              return;
+            }
+
             int N = d_input.size(0); // batch
             int d_image_size = d_input.numel() / (d_input.size(0) * d_input.size(1));
 
-- 
2.43.0


From ef652c6295459b386953aa4038c3d39a13093fd6 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 03:39:12 +0000
Subject: [PATCH 098/139] fix: convolution index shape is only remembered once
 the index is set

---
 src/aihwkit/nn/modules/conv.py        | 2 +-
 src/aihwkit/nn/modules/conv_mapped.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/nn/modules/conv.py b/src/aihwkit/nn/modules/conv.py
index fba8d8e..88572d1 100644
--- a/src/aihwkit/nn/modules/conv.py
+++ b/src/aihwkit/nn/modules/conv.py
@@ -132,8 +132,8 @@ class _AnalogConvNd(AnalogLayerBase, _ConvNd):
         self.fold_indices, image_sizes, self.input_size = self._calculate_indexes(
             x_input, self.in_channels
         )
-        self.input_shape = x_input.shape[1:]
         self.analog_module.set_indexed(self.fold_indices, image_sizes)
+        self.input_shape = x_input.shape[1:]
 
     @no_grad()
     def _calculate_indexes(
diff --git a/src/aihwkit/nn/modules/conv_mapped.py b/src/aihwkit/nn/modules/conv_mapped.py
index 9db2f1b..91dc8b0 100644
--- a/src/aihwkit/nn/modules/conv_mapped.py
+++ b/src/aihwkit/nn/modules/conv_mapped.py
@@ -196,7 +196,6 @@ class _AnalogConvNdMapped(AnalogLayerBase, _ConvNd):
 
         """
         self.input_size = x_input.shape[1:].numel()
-        self.input_shape = x_input.shape[1:]
         if x_input.ndim < 3:
             raise ModuleError("Expect >2-dim inputs to convolutions")
         channel_dim = 1
@@ -208,6 +207,7 @@ class _AnalogConvNdMapped(AnalogLayerBase, _ConvNd):
 
             for analog_tile in in_tiles:
                 analog_tile.set_indexed(fold_indices, image_sizes)
+        self.input_shape = x_input.shape[1:]
 
     def _single_unfold(self, analog_tile: "TileModule", x_input: Tensor) -> Tensor:
         """Forward using explicit unfolding (more suitable for CPUs)"""
-- 
2.43.0


From eddc36208086e3b154dc819a3e44f8497b557ec9 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 03:44:54 +0000
Subject: [PATCH 099/139] fix: copies of compiled tiles keep the device
 weightening and the pulse buffers

---
 src/rpucuda/dense_bit_line_maker.h | 2 ++
 src/rpucuda/rpu_vector_device.cpp  | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rpucuda/dense_bit_line_maker.h b/src/rpucuda/dense_bit_line_maker.h
index 5ea6f07..3f105c8 100644
--- a/src/rpucuda/dense_bit_line_maker.h
+++ b/src/rpucuda/dense_bit_line_maker.h
@@ -31,6 +31,8 @@ public:
     swap(a.containers_allocated_, b.containers_allocated_);
     swap(a.d_counts_, b.d_counts_);
     swap(a.x_counts_, b.x_counts_);
+    swap(a.d_values_, b.d_values_);
+    swap(a.x_values_, b.x_values_);
     swap(a.coincidences_, b.coincidences_);
     swap(a.rw_rng_, b.rw_rng_);
   }
diff --git a/src/rpucuda/rpu_vector_device.cpp b/src/rpucuda/rpu_vector_device.cpp
index 82ebbfa..d3c4e4e 100644
--- a/src/rpucuda/rpu_vector_device.cpp
+++ b/src/rpucuda/rpu_vector_device.cpp
@@ -132,12 +132,12 @@ template <typename T>
 VectorRPUDevice<T>::VectorRPUDevice(const VectorRPUDevice<T> &other)
     : PulsedRPUDeviceBase<T>(other) {
 
+  allocateContainers(other.n_devices_);
+
   reduce_weightening_ = other.reduce_weightening_;
   current_device_idx_ = other.current_device_idx_;
   current_update_idx_ = other.current_update_idx_;
 
-  allocateContainers(other.n_devices_);
-
   if (other.weights_vec_ != nullptr) {
     RPU::math::copy<T>(
         this->size_ * n_devices_, other.weights_vec_[0][0], 1, weights_vec_[0][0], 1);
-- 
2.43.0


From 64a19ca59b17dfb0b99f873a38f27fed16f0b810 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 03:53:37 +0000
Subject: [PATCH 100/139] fix: states of a tile with other sizes or parameters
 are refused instead of accessing wrong memory

---
 src/rpucuda/rpu.cpp                         |  6 ++++++
 src/rpucuda/rpu_chopped_transfer_device.cpp |  4 ++--
 src/rpucuda/rpu_dynamic_transfer_device.cpp |  2 +-
 src/rpucuda/rpu_forward_backward_pass.cpp   | 16 ++++++++--------
 src/rpucuda/rpu_transfer_device.cpp         | 10 +++++++---
 src/rpucuda/rpu_vector_device.cpp           |  2 +-
 src/rpucuda/utility_functions.h             | 13 +++++++++++++
 src/rpucuda/weight_drifter.cpp              |  5 +++++
 8 files changed, 43 insertions(+), 15 deletions(-)

diff --git a/src/rpucuda/rpu.cpp b/src/rpucuda/rpu.cpp
index 8ec6073..4c5d04a 100644
--- a/src/rpucuda/rpu.cpp
+++ b/src/rpucuda/rpu.cpp
@@ -458,6 +458,9 @@ void RPUSimple<T>::loadExtra(const RPU::state_t &extra, const std::string prefix
     V tmp;
     RPU::load(state, "fb_weights", tmp, strict);
     if (tmp.size()) {
+      if (tmp.size() != (size_t)this->d_size_ * (size_t)this->x_size_) {
+        RPU_FATAL("Size of `fb_weights` in state does not match the tile.");
+      }
       if (fb_weights_ == nullptr) {
         fb_weights_ = Array_2D_Get<T>(this->d_size_, this->x_size_);
         fb_weight_modifier_ = RPU::make_unique<WeightModifier<T>>(this->x_size_, this->d_size_);
@@ -504,6 +507,9 @@ void RPUSimple<T>::loadExtra(const RPU::state_t &extra, const std::string prefix
   if (use_delayed_update_) {
     V tmp;
     RPU::load(state, "weights_buffer", tmp, strict);
+    if (tmp.size() != (size_t)this->d_size_ * (size_t)this->x_size_) {
+      RPU_FATAL("Size of `weights_buffer` in state does not match the tile.");
+    }
     RPU::math::copy<T>(tmp.size(), tmp.data(), 1, weights_buffer_[0], 1);
   }
 }
diff --git a/src/rpucuda/rpu_chopped_transfer_device.cpp b/src/rpucuda/rpu_chopped_transfer_device.cpp
index 81d5e32..e7e3ce8 100644
--- a/src/rpucuda/rpu_chopped_transfer_device.cpp
+++ b/src/rpucuda/rpu_chopped_transfer_device.cpp
@@ -289,8 +289,8 @@ void ChoppedTransferRPUDevice<T>::loadExtra(
   BufferedTransferRPUDevice<T>::loadExtra(extra, prefix, strict);
   auto state = RPU::selectWithPrefix(extra, prefix);
 
-  RPU::load(state, "in_chopper", in_chopper_, strict);
-  RPU::load(state, "out_chopper", out_chopper_, strict);
+  RPU::loadSized(state, "in_chopper", in_chopper_, strict);
+  RPU::loadSized(state, "out_chopper", out_chopper_, strict);
 
   RPU::load(state, "tmp_count_lr", tmp_count_lr_, strict);
   RPU::load(state, "m_x", m_x_, strict);
diff --git a/src/rpucuda/rpu_dynamic_transfer_device.cpp b/src/rpucuda/rpu_dynamic_transfer_device.cpp
index c723dd8..dcf1b2f 100644
--- a/src/rpucuda/rpu_dynamic_transfer_device.cpp
+++ b/src/rpucuda/rpu_dynamic_transfer_device.cpp
@@ -495,7 +495,7 @@ void DynamicTransferRPUDevice<T>::loadExtra(
 
   auto state = RPU::selectWithPrefix(extra, prefix);
 
-  RPU::load(state, "in_chopper_switched", in_chopper_switched_, strict);
+  RPU::loadSized(state, "in_chopper_switched", in_chopper_switched_, strict);
   RPU::load(state, "count_lr_scale", count_lr_scale_, strict);
   RPU::load(state, "feedback_data", feedback_data_, strict);
   RPU::load(state, "feedback_data_idx", feedback_data_idx_, strict);
diff --git a/src/rpucuda/rpu_forward_backward_pass.cpp b/src/rpucuda/rpu_forward_backward_pass.cpp
index 2a813f6..7c36786 100644
--- a/src/rpucuda/rpu_forward_backward_pass.cpp
+++ b/src/rpucuda/rpu_forward_backward_pass.cpp
@@ -85,17 +85,17 @@ void ForwardBackwardPass<T>::loadExtra(
     const RPU::state_t &extra, const std::string prefix, bool strict) {
 
   auto state = RPU::selectWithPrefix(extra, prefix);
-  RPU::load(state, "fwd.v_offset", fb_pars_.fwd.v_offset, strict);
-  RPU::load(state, "fwd.w_asymmetry", fb_pars_.fwd.w_asymmetry, strict);
-  RPU::load(state, "fwd.out_nonlinearity", fb_pars_.fwd.out_nonlinearity, strict);
+  RPU::loadSized(state, "fwd.v_offset", fb_pars_.fwd.v_offset, strict);
+  RPU::loadSized(state, "fwd.w_asymmetry", fb_pars_.fwd.w_asymmetry, strict);
+  RPU::loadSized(state, "fwd.out_nonlinearity", fb_pars_.fwd.out_nonlinearity, strict);
   RPU::load(state, "fwd.out_nonlinearity_factor", fb_pars_.fwd.out_nonlinearity_factor, strict);
-  RPU::load(state, "fwd.out_noise_values", fb_pars_.fwd.out_noise_values, strict);
+  RPU::loadSized(state, "fwd.out_noise_values", fb_pars_.fwd.out_noise_values, strict);
 
-  RPU::load(state, "bwd.v_offset", fb_pars_.bwd.v_offset, strict);
-  RPU::load(state, "bwd.w_asymmetry", fb_pars_.bwd.w_asymmetry, strict);
-  RPU::load(state, "bwd.out_nonlinearity", fb_pars_.bwd.out_nonlinearity, strict);
+  RPU::loadSized(state, "bwd.v_offset", fb_pars_.bwd.v_offset, strict);
+  RPU::loadSized(state, "bwd.w_asymmetry", fb_pars_.bwd.w_asymmetry, strict);
+  RPU::loadSized(state, "bwd.out_nonlinearity", fb_pars_.bwd.out_nonlinearity, strict);
   RPU::load(state, "bwd.out_nonlinearity_factor", fb_pars_.bwd.out_nonlinearity_factor, strict);
-  RPU::load(state, "bwd.out_noise_values", fb_pars_.bwd.out_noise_values, strict);
+  RPU::loadSized(state, "bwd.out_noise_values", fb_pars_.bwd.out_noise_values, strict);
 }
 
 template class ForwardBackwardPass<float>;
diff --git a/src/rpucuda/rpu_transfer_device.cpp b/src/rpucuda/rpu_transfer_device.cpp
index ca7c349..ba74ffc 100644
--- a/src/rpucuda/rpu_transfer_device.cpp
+++ b/src/rpucuda/rpu_transfer_device.cpp
@@ -706,12 +706,16 @@ void TransferRPUDevice<T>::loadExtra(
 
   auto state = RPU::selectWithPrefix(extra, prefix);
 
-  RPU::load(state, "current_slice_indices", current_slice_indices_, strict);
+  RPU::loadSized(state, "current_slice_indices", current_slice_indices_, strict);
+  for (auto &i_slice : current_slice_indices_) {
+    // e.g. if the number of slices differs
+    i_slice = i_slice < 0 ? 0 : i_slice % getPar().getInSize();
+  }
   if (state.count("transfer_vecs")) {
-    RPU::load(state, "transfer_vecs", transfer_vecs_, strict);
+    RPU::loadSized(state, "transfer_vecs", transfer_vecs_, strict);
   }
   if (state.count("transfer_every")) {
-    RPU::load(state, "transfer_every", transfer_every_, strict);
+    RPU::loadSized(state, "transfer_every", transfer_every_, strict);
   }
   transfer_fb_pass_->loadExtra(state, "transfer_fb_pass", strict);
   transfer_pwu_->loadExtra(state, "transfer_pwu", strict);
diff --git a/src/rpucuda/rpu_vector_device.cpp b/src/rpucuda/rpu_vector_device.cpp
index d3c4e4e..4307347 100644
--- a/src/rpucuda/rpu_vector_device.cpp
+++ b/src/rpucuda/rpu_vector_device.cpp
@@ -354,7 +354,7 @@ void VectorRPUDevice<T>::loadExtra(
   for (size_t k = 0; k < rpu_device_vec_.size(); k++) {
     rpu_device_vec_[k]->loadExtra(state, std::to_string(k), strict);
   }
-  RPU::load(state, "reduce_weightening", reduce_weightening_, strict);
+  RPU::loadSized(state, "reduce_weightening", reduce_weightening_, strict);
   RPU::load(state, "current_device_idx", current_device_idx_, strict);
   RPU::load(state, "current_update_idx", current_update_idx_, strict);
 }
diff --git a/src/rpucuda/utility_functions.h b/src/rpucuda/utility_functions.h
index 7bd500f..0c0c037 100644
--- a/src/rpucuda/utility_functions.h
+++ b/src/rpucuda/utility_functions.h
@@ -165,6 +165,19 @@ std::ostream &operator<<(std::ostream &out, const half_t &value);
 /* state helper functions */
 template <typename T_VEC>
 void load(RPU::state_t &state, std::string key, T_VEC &value, bool strict);
+
+// same, but refuses a vector that does not have the size that is currently in use
+template <typename T_VEC>
+void loadSized(RPU::state_t &state, std::string key, T_VEC &value, bool strict) {
+  T_VEC tmp(value);
+  RPU::load(state, key, tmp, strict);
+  if (value.size() > 0 && tmp.size() != value.size()) {
+    RPU_FATAL(
+        "Size of `" << key << "` in state does not match: expected " << value.size() << " but got "
+                    << tmp.size() << ".");
+  }
+  value = tmp;
+}
 template <typename T_VEC> void insert(RPU::state_t &state, std::string key, const T_VEC &value);
 
 void insertWithPrefix(RPU::state_t &extra, const RPU::state_t &state, std::string prefix);
diff --git a/src/rpucuda/weight_drifter.cpp b/src/rpucuda/weight_drifter.cpp
index 258721c..bd903f7 100644
--- a/src/rpucuda/weight_drifter.cpp
+++ b/src/rpucuda/weight_drifter.cpp
@@ -88,6 +88,11 @@ void WeightDrifter<T>::loadExtra(const RPU::state_t &extra, const std::string pr
   RPU::load(state, "w0", w0_, strict);
   RPU::load(state, "t", t_, strict);
   RPU::load(state, "nu", nu_, strict);
+  for (const auto *v : {&previous_weights_, &w0_, &t_, &nu_}) {
+    if (v->size() > 0 && v->size() != (size_t)size_) {
+      RPU_FATAL("Size of the drift state does not match the tile.");
+    }
+  }
   RPU::load(state, "current_t", current_t_, strict);
   RPU::load(state, "active", active_, strict);
 }
-- 
2.43.0


From 305522db938b512795b35dd0716f1da176e9387b Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 04:00:28 +0000
Subject: [PATCH 101/139] fix: update BL management does not overflow for large
 or vanishing gradients

---
 src/rpucuda/rpu_pulsed_meta_parameter.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/rpucuda/rpu_pulsed_meta_parameter.cpp b/src/rpucuda/rpu_pulsed_meta_parameter.cpp
index a0b9590..3042a61 100644
--- a/src/rpucuda/rpu_pulsed_meta_parameter.cpp
+++ b/src/rpucuda/rpu_pulsed_meta_parameter.cpp
@@ -206,9 +206,17 @@ void PulsedUpdateMetaParameter<T>::performUpdateManagement(
       T k_val = lr * x_val * d_val / weight_granularity;
 
       if (this->update_bl_management) {
-        BL = (int)ceilf(k_val);
-        if (BL > max_BL) {
+        if (!(k_val > (T)0.0)) {
+          // nothing to do (e.g. product of very small values)
+          A = 1;
+          B = 1;
+          BL = 0;
+          return;
+        }
+        if (k_val >= (T)max_BL) {
           BL = max_BL; // the set BL is the *max BL* in case of update_bl_management  !
+        } else {
+          BL = (int)ceilf(k_val);
         }
         A = (T)sqrtf(lr / (weight_granularity * (T)BL));
         B = A;
-- 
2.43.0


From 440f8624cbff8a95ab9a1deee9542daad083f98a Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 04:00:28 +0000
Subject: [PATCH 102/139] fix: refuse a number of reads per transfer that is
 not positive

---
 src/rpucuda/rpu_transfer_device.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rpucuda/rpu_transfer_device.cpp b/src/rpucuda/rpu_transfer_device.cpp
index ba74ffc..06e57ce 100644
--- a/src/rpucuda/rpu_transfer_device.cpp
+++ b/src/rpucuda/rpu_transfer_device.cpp
@@ -174,6 +174,10 @@ void TransferRPUDeviceMetaParameter<T>::initializeWithSize(int x_size, int d_siz
     RPU_FATAL("Expect transfer_lr_vec of size n_devices.");
   }
 
+  if (n_reads_per_transfer < 1) {
+    RPU_FATAL("Expect n_reads_per_transfer to be positive.");
+  }
+
   if (n_reads_per_transfer > _in_size) {
     // should not be needed anyway
     n_reads_per_transfer = _in_size;
-- 
2.43.0


From 4790a421c0f7327c018ab281f50f567de16e53e0 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 04:33:30 +0000
Subject: [PATCH 103/139] fix: quantization manager with a given range can be
 evaluated

---
 .../digital_low_precision/quantization_manager.py     | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/aihwkit/simulator/digital_low_precision/quantization_manager.py b/src/aihwkit/simulator/digital_low_precision/quantization_manager.py
index d5f5710..11d7674 100644
--- a/src/aihwkit/simulator/digital_low_precision/quantization_manager.py
+++ b/src/aihwkit/simulator/digital_low_precision/quantization_manager.py
@@ -118,11 +118,16 @@ class QuantizationManager(nn.Module):
         return self.state == Qstates.learn_ranges
 
     def reset_ranges(self):
-        self.range_estimator.reset()
-        self.quantizer.reset()
-        self.estimate_ranges_train()
+        if self.range_estimator is not None:
+            self.range_estimator.reset()
+            self.quantizer.reset()
+            self.estimate_ranges_train()
 
     def forward(self, x):
+        if self.range_estimator is None:
+            # the range was given explicitly
+            return self.quantizer(x)
+
         if self.range_estimator.per_group_range_estimation:
             self.range_estimator(x)
             return x
-- 
2.43.0


From 5b31637d498d825a1376db125272d521a16e4d23 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 04:33:30 +0000
Subject: [PATCH 104/139] fix: quantized convolution applies the padding mode
 of the layer

---
 .../low_precision_modules/quantized_base_modules.py  | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/aihwkit/nn/low_precision_modules/quantized_base_modules.py b/src/aihwkit/nn/low_precision_modules/quantized_base_modules.py
index 1a604ef..4da09dc 100644
--- a/src/aihwkit/nn/low_precision_modules/quantized_base_modules.py
+++ b/src/aihwkit/nn/low_precision_modules/quantized_base_modules.py
@@ -14,7 +14,7 @@
 
 from typing import Any, Optional
 from torch import Tensor, nn
-from torch.nn.functional import linear, conv2d, layer_norm, embedding
+from torch.nn.functional import linear, layer_norm, embedding
 
 from aihwkit.simulator.digital_low_precision.base_quantized_classes import (
     FP32Acts,
@@ -39,15 +39,7 @@ class QuantConv2d(QuantizationHijacker, nn.Conv2d):
     def run_forward(
         self, x: Tensor, weight: Tensor, bias: Tensor, offsets: Optional[Any] = None
     ) -> Tensor:
-        return conv2d(
-            x.contiguous(),
-            weight.contiguous(),
-            bias,
-            self.stride,
-            self.padding,
-            self.dilation,
-            self.groups,
-        )
+        return self._conv_forward(x.contiguous(), weight.contiguous(), bias)
 
 
 class QuantLayerNorm(QuantizationHijacker, nn.LayerNorm):
-- 
2.43.0


From 18ea16acd2fb9c95e0c42d9d1ea89a9c7960c253 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 04:33:30 +0000
Subject: [PATCH 105/139] fix: layer norms without weight or bias can be
 converted to quantized layers

---
 src/aihwkit/nn/low_precision_conversion.py                | 3 ++-
 src/aihwkit/nn/low_precision_modules/conversion_utils.py  | 8 +++++++-
 .../nn/low_precision_modules/quantized_base_modules.py    | 4 ++--
 src/aihwkit/simulator/digital_low_precision/hijacker.py   | 4 ++--
 4 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/aihwkit/nn/low_precision_conversion.py b/src/aihwkit/nn/low_precision_conversion.py
index b35fdd0..285d6ba 100644
--- a/src/aihwkit/nn/low_precision_conversion.py
+++ b/src/aihwkit/nn/low_precision_conversion.py
@@ -116,7 +116,8 @@ def quantize_model(
             kwargs = get_module_args(model, None)
             quant_model = q_model(**kwargs, **convert_configs_to_kwargs_dict(q_config))
 
-            quant_model.weight.data = model.weight.data
+            if model.weight is not None:
+                quant_model.weight.data = model.weight.data
             if getattr(model, "bias", None) is not None:
                 quant_model.bias.data = model.bias.data
 
diff --git a/src/aihwkit/nn/low_precision_modules/conversion_utils.py b/src/aihwkit/nn/low_precision_modules/conversion_utils.py
index 33bbd45..77aac09 100644
--- a/src/aihwkit/nn/low_precision_modules/conversion_utils.py
+++ b/src/aihwkit/nn/low_precision_modules/conversion_utils.py
@@ -92,7 +92,13 @@ def get_module_args(module: Module, activation: Optional[Module] = None) -> dict
 
     def get_layernorm_args(module: Module) -> Dict[str, Any]:
         """Quantization arguments for `QuantLayerNorm`"""
-        args = dict(normalized_shape=module.normalized_shape, eps=module.eps)
+        args = dict(
+            normalized_shape=module.normalized_shape,
+            eps=module.eps,
+            elementwise_affine=module.elementwise_affine,
+        )
+        if module.elementwise_affine and module.bias is None:
+            args["bias"] = False
         return args
 
     def get_embedding_args(module: Module) -> Dict[str, Any]:
diff --git a/src/aihwkit/nn/low_precision_modules/quantized_base_modules.py b/src/aihwkit/nn/low_precision_modules/quantized_base_modules.py
index 4da09dc..4476186 100644
--- a/src/aihwkit/nn/low_precision_modules/quantized_base_modules.py
+++ b/src/aihwkit/nn/low_precision_modules/quantized_base_modules.py
@@ -51,8 +51,8 @@ class QuantLayerNorm(QuantizationHijacker, nn.LayerNorm):
         return layer_norm(
             input=x.contiguous(),
             normalized_shape=self.normalized_shape,
-            weight=weight.contiguous(),
-            bias=bias.contiguous(),
+            weight=weight.contiguous() if weight is not None else None,
+            bias=bias.contiguous() if bias is not None else None,
             eps=self.eps,
         )
 
diff --git a/src/aihwkit/simulator/digital_low_precision/hijacker.py b/src/aihwkit/simulator/digital_low_precision/hijacker.py
index cc7c65d..da7f71f 100644
--- a/src/aihwkit/simulator/digital_low_precision/hijacker.py
+++ b/src/aihwkit/simulator/digital_low_precision/hijacker.py
@@ -79,12 +79,12 @@ class QuantizationHijacker(QuantizedModule):
 
         weight, bias = self.get_weight_bias()
 
-        if self._quant_w:
+        if self._quant_w and weight is not None:
             weight = self.weight_quantizer(weight)
 
         if self._caching and not self.training and self.cached_params is None:
             self.cached_params = (
-                torch.Tensor(to_numpy(weight)).to(weight.device),
+                torch.Tensor(to_numpy(weight)).to(weight.device) if weight is not None else None,
                 torch.Tensor(to_numpy(bias)).to(bias.device) if bias is not None else None,
             )
         return weight, bias
-- 
2.43.0


From e9b0ea3387f52285b8dfa6fd0375a0fb98c9f781 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 04:33:30 +0000
Subject: [PATCH 106/139] fix: quantized layers keep frozen and shared
 parameters of the converted layers

---
 src/aihwkit/nn/low_precision_conversion.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/nn/low_precision_conversion.py b/src/aihwkit/nn/low_precision_conversion.py
index 285d6ba..5613d2b 100644
--- a/src/aihwkit/nn/low_precision_conversion.py
+++ b/src/aihwkit/nn/low_precision_conversion.py
@@ -116,10 +116,11 @@ def quantize_model(
             kwargs = get_module_args(model, None)
             quant_model = q_model(**kwargs, **convert_configs_to_kwargs_dict(q_config))
 
+            # Use the parameters themselves, which might be frozen or shared with other modules
             if model.weight is not None:
-                quant_model.weight.data = model.weight.data
+                quant_model.weight = model.weight
             if getattr(model, "bias", None) is not None:
-                quant_model.bias.data = model.bias.data
+                quant_model.bias = model.bias
 
         elif isinstance(model, AnalogLayerBase):
             # If the module is an analog layer, then use the convert_to_digital first, to
-- 
2.43.0


From ba458f86fa3e1d28b704863c7de1648674ebc5cd Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 04:33:30 +0000
Subject: [PATCH 107/139] fix: quantized conversion keeps the training or
 evaluation mode of the model

---
 src/aihwkit/nn/low_precision_conversion.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/nn/low_precision_conversion.py b/src/aihwkit/nn/low_precision_conversion.py
index 5613d2b..db3b6f6 100644
--- a/src/aihwkit/nn/low_precision_conversion.py
+++ b/src/aihwkit/nn/low_precision_conversion.py
@@ -50,6 +50,15 @@ def convert_to_quantized(model: Module, quantization_map: QuantizationMap) -> Mo
     return quant_model
 
 
+def _inherit_mode(new_module: Module, module: Module) -> Module:
+    """Put the modules added by the conversion in the mode of the converted module."""
+    original = set(module.modules())
+    for mod in new_module.modules():
+        if mod not in original:
+            mod.training = module.training
+    return new_module
+
+
 def quantize_model(
     model: Module, quantization_map: QuantizationMap, model_name: str = ""
 ) -> Module:
@@ -143,6 +152,8 @@ def quantize_model(
                 **convert_configs_to_kwargs_dict(q_config),
             }
             quant_model = q_model(model, **kwargs)
+
+        quant_model = _inherit_mode(quant_model, model)
     else:
         # If the conversion is not defined, recursively call the function on the children
         quant_model = model
@@ -156,8 +167,11 @@ def quantize_model(
             # if such a selection is defined and swap it with the original module
             if new_mod is not None:
                 if full_name in quantization_map.input_activation_qconfig_map.keys():
-                    new_mod = QuantizedInputModule(
-                        new_mod, quantization_map.input_activation_qconfig_map[full_name]
+                    new_mod = _inherit_mode(
+                        QuantizedInputModule(
+                            new_mod, quantization_map.input_activation_qconfig_map[full_name]
+                        ),
+                        new_mod,
                     )
                 setattr(quant_model, name, new_mod)
 
-- 
2.43.0


From ff364d69d19879e248a08d042d93480675cc31db Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 04:33:44 +0000
Subject: [PATCH 108/139] fix: modules shared within a model are converted to
 quantized modules once

---
 src/aihwkit/nn/low_precision_conversion.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/aihwkit/nn/low_precision_conversion.py b/src/aihwkit/nn/low_precision_conversion.py
index db3b6f6..88c7d45 100644
--- a/src/aihwkit/nn/low_precision_conversion.py
+++ b/src/aihwkit/nn/low_precision_conversion.py
@@ -7,6 +7,7 @@
 """Functions to convert a given model to a quantized counterpart"""
 
 from copy import deepcopy
+from typing import Dict, Optional
 
 from torch.nn import Module, Linear, Conv2d
 
@@ -60,7 +61,10 @@ def _inherit_mode(new_module: Module, module: Module) -> Module:
 
 
 def quantize_model(
-    model: Module, quantization_map: QuantizationMap, model_name: str = ""
+    model: Module,
+    quantization_map: QuantizationMap,
+    model_name: str = "",
+    converted: Optional[Dict[Module, Optional[Module]]] = None,
 ) -> Module:
     """Traverses a model recursively and replaces a module with a quantized counterpart,
     if such a conversion is defined in the quantization map. It realizes all the capabilities
@@ -84,6 +88,8 @@ def quantize_model(
         quantization parameters for each conversion
     model_name : str, optional
         The name of the current module in the state dict of the original model, by default ""
+    converted : Dict, optional
+        The modules converted so far, since modules might be shared within the model
 
     Returns
     -------
@@ -157,11 +163,18 @@ def quantize_model(
     else:
         # If the conversion is not defined, recursively call the function on the children
         quant_model = model
-        for name, mod in quant_model.named_children():
+        converted = {} if converted is None else converted
+        # NOTE: named_children would list a module registered under several names only once
+        # pylint: disable=protected-access
+        for name, mod in list(quant_model._modules.items()):
             full_name = model_name + "." + name if model_name else name
-            if full_name in quantization_map.excluded_modules:
+            if mod is None or full_name in quantization_map.excluded_modules:
                 continue
-            new_mod = quantize_model(mod, quantization_map, model_name=full_name)
+            if mod not in converted:
+                converted[mod] = quantize_model(
+                    mod, quantization_map, model_name=full_name, converted=converted
+                )
+            new_mod = converted[mod]
 
             # If the returned module is not None, wrap it with an input quantizer
             # if such a selection is defined and swap it with the original module
-- 
2.43.0


From 1ca8a142af253440b618f97d2a947230facd555f Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 04:33:44 +0000
Subject: [PATCH 109/139] fix: quantized modules drop the cached weights when
 loading a state

---
 .../simulator/digital_low_precision/base_quantized_classes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/aihwkit/simulator/digital_low_precision/base_quantized_classes.py b/src/aihwkit/simulator/digital_low_precision/base_quantized_classes.py
index 7abcb51..18180da 100644
--- a/src/aihwkit/simulator/digital_low_precision/base_quantized_classes.py
+++ b/src/aihwkit/simulator/digital_low_precision/base_quantized_classes.py
@@ -134,6 +134,10 @@ class QuantizedModule(nn.Module):
             self.cached_params = None
         return self
 
+    def _load_from_state_dict(self, *args, **kwargs):
+        self.cached_params = None
+        return super()._load_from_state_dict(*args, **kwargs)
+
     def _apply(self, *args, **kwargs):
         self.cached_params = None
         return super(QuantizedModule, self)._apply(*args, **kwargs)
-- 
2.43.0


From ba87e12ae6a093e531b8c0dbeb224c71ff8cc396 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 04:34:59 +0000
Subject: [PATCH 110/139] fix: quantized tile arrays of a single tile can be
 evaluated

---
 src/aihwkit/simulator/tiles/array.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/array.py b/src/aihwkit/simulator/tiles/array.py
index 8469312..2bc6bbb 100644
--- a/src/aihwkit/simulator/tiles/array.py
+++ b/src/aihwkit/simulator/tiles/array.py
@@ -226,6 +226,7 @@ class QuantizedTileModuleArray(TileModuleArray):
         # same bit-precision. The wide layers need to be quantized to equalize
         # the range across the different tiles and keep the precision down
         # in case of bias addition.
+        self.module_out_quantizer = None
         if self.analog_tile_count > 1:
             if rpu_config.act_quant_config is not None and rpu_config.act_quant_config.n_bits > 0:
                 self.module_out_quantizer = QuantizedActivation(
@@ -233,8 +234,6 @@ class QuantizedTileModuleArray(TileModuleArray):
                 )
                 # Enable the quantization
                 self.module_out_quantizer.quantized_acts()
-            else:
-                self.module_out_quantizer = None
 
         # Initialize the bias quantizer, if quantized periphery is defined
         if self.bias is not None:
-- 
2.43.0


From 72680e302439e7b5a9a8cac6d92872fcff4935a8 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 04:34:59 +0000
Subject: [PATCH 111/139] fix: quantized tile arrays with learned quantization
 of the bias can be created

---
 src/aihwkit/simulator/tiles/array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/array.py b/src/aihwkit/simulator/tiles/array.py
index 2bc6bbb..7de6072 100644
--- a/src/aihwkit/simulator/tiles/array.py
+++ b/src/aihwkit/simulator/tiles/array.py
@@ -250,7 +250,7 @@ class QuantizedTileModuleArray(TileModuleArray):
                 )
                 if periph_quant.learn_quant_params:
                     self.bias_quant_update_idx = Parameter(
-                        full((1,), 0.0, device=self.device), requires_grad=False
+                        full((1,), 0.0, device=self.bias.device), requires_grad=False
                     )
             else:
                 self.bias_quantizer = None
-- 
2.43.0


From e50663ff3422e08494d9dd5263daf4cdf3c9f5d8 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 04:34:59 +0000
Subject: [PATCH 112/139] fix: bias quantizer of tile arrays follows the bias
 in training after an evaluation

---
 src/aihwkit/simulator/tiles/array.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/array.py b/src/aihwkit/simulator/tiles/array.py
index 7de6072..ebef4f9 100644
--- a/src/aihwkit/simulator/tiles/array.py
+++ b/src/aihwkit/simulator/tiles/array.py
@@ -295,16 +295,17 @@ class QuantizedTileModuleArray(TileModuleArray):
                     result += q_bias.view(*tensor_view)
 
                 else:
-                    if (
-                        self.training
-                        and self.periph_quant.learn_quant_params
-                        and not self.bias_quantizer.is_learning()
-                    ):
+                    if self.training and not self.periph_quant.learn_quant_params:
+                        self.bias_quantizer.estimate_ranges_train()  # estimate if no learned
+                    elif self.training and not self.bias_quantizer.is_learning():
                         # If learning is enabled, estimate till `init_learning_after`
                         # before switching to learned
                         self.bias_quant_update_idx.data += 1  # count up to the desired batch
                         if self.bias_quant_update_idx > self.periph_quant.init_learning_after:
                             self.bias_quantizer.learn_ranges()  # Switch to learned
+                        else:
+                            # Remain/switch to estimate ranges
+                            self.bias_quantizer.estimate_ranges_train()
 
                     # Add to the result the quantized bias
                     result += self.bias_quantizer(self.bias).view(*tensor_view)
-- 
2.43.0


From ef7863b9c5ecf86123d40dc20407785bab5ea858 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 04:34:59 +0000
Subject: [PATCH 113/139] fix: mapped linear layers use the tile array of the
 configuration

---
 src/aihwkit/nn/modules/linear_mapped.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/nn/modules/linear_mapped.py b/src/aihwkit/nn/modules/linear_mapped.py
index 0a8ecf4..a9a641a 100644
--- a/src/aihwkit/nn/modules/linear_mapped.py
+++ b/src/aihwkit/nn/modules/linear_mapped.py
@@ -59,8 +59,11 @@ class AnalogLinearMapped(AnalogLinear):
         out_features: int,
         bias: bool = True,
         rpu_config: Optional[MappableRPU] = None,
-        tile_module_class: Optional[Type] = TileModuleArray,
+        tile_module_class: Optional[Type] = None,
     ):
+        if tile_module_class is None:
+            tile_module_class = getattr(rpu_config, "tile_array_class", None) or TileModuleArray
+
         super().__init__(in_features, out_features, bias, rpu_config, tile_module_class)
 
     @classmethod
@@ -68,7 +71,7 @@ class AnalogLinearMapped(AnalogLinear):
         cls,
         module: Linear,
         rpu_config: RPUConfigBase,
-        tile_module_class: Optional[Type] = TileModuleArray,
+        tile_module_class: Optional[Type] = None,
     ) -> "AnalogLinear":
         """Return an AnalogLinear layer from a torch Linear layer.
 
-- 
2.43.0


From bcb63756abd0f19b9cb6a2452af8903af3cc165e Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 04:34:59 +0000
Subject: [PATCH 114/139] fix: loaded quantizer states do not alias the given
 state

---
 src/aihwkit/simulator/digital_low_precision/quantizers.py     | 2 +-
 .../simulator/digital_low_precision/range_estimators.py       | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/aihwkit/simulator/digital_low_precision/quantizers.py b/src/aihwkit/simulator/digital_low_precision/quantizers.py
index 422619d..2501111 100644
--- a/src/aihwkit/simulator/digital_low_precision/quantizers.py
+++ b/src/aihwkit/simulator/digital_low_precision/quantizers.py
@@ -457,7 +457,7 @@ class SymmetricUniformQuantizer(QuantizerBase):
 
         # Fix the shape of the signed_key to be loaded
         if signed_key in state_dict:
-            self._signed = state_dict[signed_key]
+            self._signed = state_dict[signed_key].clone()
 
         super(SymmetricUniformQuantizer, self)._load_from_state_dict(
             state_dict, prefix, local_metadata, strict, missing_keys, unexpected_keys, error_msgs
diff --git a/src/aihwkit/simulator/digital_low_precision/range_estimators.py b/src/aihwkit/simulator/digital_low_precision/range_estimators.py
index eecdb3c..21bff30 100644
--- a/src/aihwkit/simulator/digital_low_precision/range_estimators.py
+++ b/src/aihwkit/simulator/digital_low_precision/range_estimators.py
@@ -61,10 +61,10 @@ class RangeEstimatorBase(nn.Module):
         xmax_key = prefix + "current_xmax"
         if xmin_key in state_dict:
             if self.current_xmin is None or state_dict[xmin_key].shape != self.current_xmin.shape:
-                self.current_xmin = state_dict[xmin_key]
+                self.current_xmin = state_dict[xmin_key].clone()
         if xmax_key in state_dict:
             if self.current_xmax is None or state_dict[xmax_key].shape != self.current_xmax.shape:
-                self.current_xmax = state_dict[xmax_key]
+                self.current_xmax = state_dict[xmax_key].clone()
 
         super(RangeEstimatorBase, self)._load_from_state_dict(
             state_dict, prefix, local_metadata, strict, missing_keys, unexpected_keys, error_msgs
-- 
2.43.0


From 9c90eef7e015a91d6e8844c92d686c30bc03121d Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 05:26:39 +0000
Subject: [PATCH 115/139] fix: weight scaling omega of converted training
 experiments is restored

---
 src/aihwkit/cloud/converter/v1/mappings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/cloud/converter/v1/mappings.py b/src/aihwkit/cloud/converter/v1/mappings.py
index 98766da..027cb08 100644
--- a/src/aihwkit/cloud/converter/v1/mappings.py
+++ b/src/aihwkit/cloud/converter/v1/mappings.py
@@ -136,7 +136,7 @@ class Function:
         if weight_scaling_omega is not None:
             if "rpu_config" not in kwargs or not hasattr(kwargs["rpu_config"], "mapping"):
                 raise ConversionError("Expect Mappable RPUConfig")
-            kwargs["rpu_config"].mapping.weights_scaling_omega = weight_scaling_omega
+            kwargs["rpu_config"].mapping.weight_scaling_omega = weight_scaling_omega
 
         return cls(**kwargs)
 
-- 
2.43.0


From 89e6d5eb6b875a1e92bb44c7e4175f9ac7721919 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 05:26:39 +0000
Subject: [PATCH 116/139] fix: converters keep the absence of the bias of
 analog layers

---
 src/aihwkit/cloud/converter/v1/i_mappings.py | 4 +++-
 src/aihwkit/cloud/converter/v1/mappings.py   | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/cloud/converter/v1/i_mappings.py b/src/aihwkit/cloud/converter/v1/i_mappings.py
index 3773a73..07d0a8d 100644
--- a/src/aihwkit/cloud/converter/v1/i_mappings.py
+++ b/src/aihwkit/cloud/converter/v1/i_mappings.py
@@ -148,7 +148,9 @@ class LayerFunction(Function):
         Raises ConversionError
         """
         if field == "bias":
-            return getattr(source, "bias", None) is not None
+            bias = getattr(source, "bias", None)
+            # analog layers might store only a flag
+            return bias if isinstance(bias, bool) else bias is not None
         if field == "rpu_config":
             # preset_cls = type(source.analog_tile.rpu_config)
             analog_tile = next(source.analog_tiles())
diff --git a/src/aihwkit/cloud/converter/v1/mappings.py b/src/aihwkit/cloud/converter/v1/mappings.py
index 027cb08..63bf8f9 100644
--- a/src/aihwkit/cloud/converter/v1/mappings.py
+++ b/src/aihwkit/cloud/converter/v1/mappings.py
@@ -155,7 +155,9 @@ class LayerFunction(Function):
     def get_field_value_to_proto(self, source: Any, field: str, default: Any = None) -> Any:
         """Get the value of a field."""
         if field == "bias":
-            return getattr(source, "bias", None) is not None
+            bias = getattr(source, "bias", None)
+            # analog layers might store only a flag
+            return bias if isinstance(bias, bool) else bias is not None
 
         if field == "weight_scaling_omega":
             return next(source.analog_tiles()).rpu_config.mapping.weight_scaling_omega
-- 
2.43.0


From 30f973638339aa5f9d2578ce994e83ab29083fea Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 05:27:19 +0000
Subject: [PATCH 117/139] fix: converters refuse layers with arguments that are
 not stored

---
 src/aihwkit/cloud/converter/v1/i_mappings.py  |  2 +
 src/aihwkit/cloud/converter/v1/mappings.py    |  2 +
 .../cloud/converter/v1/representable.py       | 39 +++++++++++++++++++
 3 files changed, 43 insertions(+)
 create mode 100644 src/aihwkit/cloud/converter/v1/representable.py

diff --git a/src/aihwkit/cloud/converter/v1/i_mappings.py b/src/aihwkit/cloud/converter/v1/i_mappings.py
index 07d0a8d..1cd5415 100644
--- a/src/aihwkit/cloud/converter/v1/i_mappings.py
+++ b/src/aihwkit/cloud/converter/v1/i_mappings.py
@@ -44,6 +44,7 @@ from aihwkit.cloud.converter.definitions.i_onnx_common_pb2 import (  # type: ign
 from aihwkit.cloud.converter.exceptions import ConversionError
 from aihwkit.nn import AnalogConv2d, AnalogConv2dMapped, AnalogLinear, AnalogLinearMapped
 from aihwkit.optim import AnalogSGD
+from aihwkit.cloud.converter.v1.representable import check_arguments
 from aihwkit.cloud.converter.v1.rpu_config_info import RPUconfigInfo
 
 
@@ -81,6 +82,7 @@ class Function:
 
     def to_proto(self, source: object, proto_cls: type) -> object:
         """Convert a source object into a destination object."""
+        check_arguments(source, self.args)
         instance = proto_cls(id=self.id_)
 
         for name, type_ in self.args.items():
diff --git a/src/aihwkit/cloud/converter/v1/mappings.py b/src/aihwkit/cloud/converter/v1/mappings.py
index 63bf8f9..224b7ed 100644
--- a/src/aihwkit/cloud/converter/v1/mappings.py
+++ b/src/aihwkit/cloud/converter/v1/mappings.py
@@ -36,6 +36,7 @@ from aihwkit.cloud.converter.definitions.onnx_common_pb2 import (  # type: ignor
     AttributeProto,
 )
 from aihwkit.cloud.converter.exceptions import ConversionError
+from aihwkit.cloud.converter.v1.representable import check_arguments
 from aihwkit.nn import AnalogConv2d, AnalogLinear
 from aihwkit.optim import AnalogSGD
 from aihwkit.simulator.presets import (
@@ -90,6 +91,7 @@ class Function:
 
     def to_proto(self, source: object, proto_cls: type) -> object:
         """Convert a source object into a destination object."""
+        check_arguments(source, self.args)
         instance = proto_cls(id=self.id_)
 
         for name, type_ in self.args.items():
diff --git a/src/aihwkit/cloud/converter/v1/representable.py b/src/aihwkit/cloud/converter/v1/representable.py
new file mode 100644
index 0000000..b2579c1
--- /dev/null
+++ b/src/aihwkit/cloud/converter/v1/representable.py
@@ -0,0 +1,39 @@
+# -*- coding: utf-8 -*-
+
+# (C) Copyright 2020, 2021, 2022, 2023, 2024 IBM. All Rights Reserved.
+#
+# Licensed under the MIT license. See LICENSE file in the project root for details.
+
+"""Checks whether an entity can be represented in the AIHW Composer format."""
+
+from inspect import Parameter, signature
+from typing import Any, Iterable
+
+from aihwkit.cloud.converter.exceptions import ConversionError
+
+# Arguments that have no influence on the results.
+IGNORED_ARGUMENTS = ("inplace", "use_indexed", "device", "dtype")
+
+
+def check_arguments(source: Any, names: Iterable[str]) -> None:
+    """Check that all arguments that are not stored have their default value.
+
+    Args:
+        source: the object to be converted.
+        names: names of the arguments that are stored.
+
+    Raises:
+        ConversionError: if an argument would be lost.
+    """
+    for name, parameter in signature(type(source).__init__).parameters.items():
+        default = parameter.default
+        if name in names or name in IGNORED_ARGUMENTS or default is Parameter.empty:
+            continue
+
+        value = getattr(source, name, default)
+        if isinstance(default, bool) and not isinstance(value, bool):
+            value = value is not None
+        if value != default:
+            raise ConversionError(
+                "Unsupported argument in {}: {}={}".format(type(source).__name__, name, value)
+            )
-- 
2.43.0


From c3d0cb2f01b03c444f5e2b124278fd00b4e13ed2 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 05:27:20 +0000
Subject: [PATCH 118/139] fix: converters refuse modified presets

---
 src/aihwkit/cloud/converter/v1/i_mappings.py    | 11 ++++++++++-
 src/aihwkit/cloud/converter/v1/mappings.py      | 12 +++++++++---
 src/aihwkit/cloud/converter/v1/representable.py | 16 ++++++++++++++++
 3 files changed, 35 insertions(+), 4 deletions(-)

diff --git a/src/aihwkit/cloud/converter/v1/i_mappings.py b/src/aihwkit/cloud/converter/v1/i_mappings.py
index 1cd5415..88c3066 100644
--- a/src/aihwkit/cloud/converter/v1/i_mappings.py
+++ b/src/aihwkit/cloud/converter/v1/i_mappings.py
@@ -44,7 +44,7 @@ from aihwkit.cloud.converter.definitions.i_onnx_common_pb2 import (  # type: ign
 from aihwkit.cloud.converter.exceptions import ConversionError
 from aihwkit.nn import AnalogConv2d, AnalogConv2dMapped, AnalogLinear, AnalogLinearMapped
 from aihwkit.optim import AnalogSGD
-from aihwkit.cloud.converter.v1.representable import check_arguments
+from aihwkit.cloud.converter.v1.representable import check_arguments, check_preset
 from aihwkit.cloud.converter.v1.rpu_config_info import RPUconfigInfo
 
 
@@ -161,6 +161,15 @@ class LayerFunction(Function):
                 raise ConversionError(
                     "Invalid rpu_config in layer: " f"{preset_cls} not among the presets"
                 )
+
+            # given by the analog and the noise model info
+            rpu_config, preset = analog_tile.rpu_config, preset_cls()
+            for name in ("out_noise", "out_res", "inp_res"):
+                setattr(preset.forward, name, getattr(rpu_config.forward, name))
+            preset.noise_model = rpu_config.noise_model
+            preset.drift_compensation = rpu_config.drift_compensation
+            check_preset(rpu_config, preset)
+
             return Mappings.presets[preset_cls]
         return super().get_field_value_to_proto(source, field, default)
 
diff --git a/src/aihwkit/cloud/converter/v1/mappings.py b/src/aihwkit/cloud/converter/v1/mappings.py
index 224b7ed..03d4cac 100644
--- a/src/aihwkit/cloud/converter/v1/mappings.py
+++ b/src/aihwkit/cloud/converter/v1/mappings.py
@@ -36,7 +36,7 @@ from aihwkit.cloud.converter.definitions.onnx_common_pb2 import (  # type: ignor
     AttributeProto,
 )
 from aihwkit.cloud.converter.exceptions import ConversionError
-from aihwkit.cloud.converter.v1.representable import check_arguments
+from aihwkit.cloud.converter.v1.representable import check_arguments, check_preset
 from aihwkit.nn import AnalogConv2d, AnalogLinear
 from aihwkit.optim import AnalogSGD
 from aihwkit.simulator.presets import (
@@ -165,14 +165,20 @@ class LayerFunction(Function):
             return next(source.analog_tiles()).rpu_config.mapping.weight_scaling_omega
 
         if field == "rpu_config":
-            preset_cls = type(next(source.analog_tiles()).rpu_config)
+            rpu_config = next(source.analog_tiles()).rpu_config
+            preset_cls = type(rpu_config)
             try:
-                return Mappings.presets[preset_cls]
+                name = Mappings.presets[preset_cls]
             except KeyError as ex:
                 raise ConversionError(
                     "Invalid rpu_config in layer: {} not among the presets".format(preset_cls)
                 ) from ex
 
+            preset = preset_cls()
+            preset.mapping.weight_scaling_omega = rpu_config.mapping.weight_scaling_omega
+            check_preset(rpu_config, preset)
+            return name
+
         return super().get_field_value_to_proto(source, field, default)
 
     def get_argument_from_proto(self, source: Any, field: str, default: Any = None) -> Dict:
diff --git a/src/aihwkit/cloud/converter/v1/representable.py b/src/aihwkit/cloud/converter/v1/representable.py
index b2579c1..8204ed9 100644
--- a/src/aihwkit/cloud/converter/v1/representable.py
+++ b/src/aihwkit/cloud/converter/v1/representable.py
@@ -37,3 +37,19 @@ def check_arguments(source: Any, names: Iterable[str]) -> None:
             raise ConversionError(
                 "Unsupported argument in {}: {}={}".format(type(source).__name__, name, value)
             )
+
+
+def check_preset(rpu_config: Any, preset: Any) -> None:
+    """Check that a configuration does not differ from its preset.
+
+    Args:
+        rpu_config: the configuration to be converted.
+        preset: the configuration that is going to be restored.
+
+    Raises:
+        ConversionError: if a setting would be lost.
+    """
+    if rpu_config != preset:
+        raise ConversionError(
+            "Unsupported modification of {} in layer".format(type(rpu_config).__name__)
+        )
-- 
2.43.0


From f250d567d4c29660346b271d909d336d7d76f01e Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 05:27:20 +0000
Subject: [PATCH 119/139] fix: inference experiments without remapping are
 refused by the converter

---
 src/aihwkit/cloud/converter/v1/inferencing.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aihwkit/cloud/converter/v1/inferencing.py b/src/aihwkit/cloud/converter/v1/inferencing.py
index fbefbd4..d29da5d 100644
--- a/src/aihwkit/cloud/converter/v1/inferencing.py
+++ b/src/aihwkit/cloud/converter/v1/inferencing.py
@@ -54,6 +54,9 @@ class BasicInferencingConverter:
     ) -> Any:
         """Convert an `Experiment` to its protobuf representation."""
 
+        if not experiment.remap_weights:
+            raise ConversionError("Unsupported setting: remap_weights=False")
+
         version = self._version_to_proto()
         dataset = self._dataset_to_proto(experiment.dataset, experiment.batch_size)
         network = self._model_to_proto(experiment.model, experiment.weight_template_id)
-- 
2.43.0


From fcd2dd45b169d3e93dba0fa538d83e6c3481a465 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 05:30:08 +0000
Subject: [PATCH 120/139] fix: verbose creation of the inference configuration
 does not raise

---
 src/aihwkit/cloud/converter/v1/rpu_config_info.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/cloud/converter/v1/rpu_config_info.py b/src/aihwkit/cloud/converter/v1/rpu_config_info.py
index 5426f01..c029f4e 100644
--- a/src/aihwkit/cloud/converter/v1/rpu_config_info.py
+++ b/src/aihwkit/cloud/converter/v1/rpu_config_info.py
@@ -85,7 +85,7 @@ class RPUconfigInfo:
         # Create ordered dictionary with field name as key and value as field value
         #   Include ADC and DAC in input/output resolution
         print_order = OrderedDict(
-            {
+            [
                 ("forward.out_noise", rpu_config.forward.out_noise),
                 (
                     "forward.out_res/adc",
@@ -109,7 +109,7 @@ class RPUconfigInfo:
                     "noise_model.drift_scale",
                     rpu_config.noise_model.drift_scale,  # type: ignore[attr-defined]
                 ),
-            }
+            ]
         )
 
         # add extra fields for GENERIC device
-- 
2.43.0


From d057be4c08652ff2c9e2b8b77d6335c6373381ea Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 05:32:48 +0000
Subject: [PATCH 121/139] fix: torch transfer tile chops the transferred
 dimension without changing the given inputs

---
 src/aihwkit/simulator/tiles/transfer.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/transfer.py b/src/aihwkit/simulator/tiles/transfer.py
index b110393..542b357 100644
--- a/src/aihwkit/simulator/tiles/transfer.py
+++ b/src/aihwkit/simulator/tiles/transfer.py
@@ -120,7 +120,7 @@ class TransferSimulatorTile(SimulatorTile, Module):
             reference_weight = zeros([self.t_in_size, self.t_out_size], dtype=dtype.as_torch())
             self.register_buffer("reference_weight", reference_weight)
 
-        chopper = ones([self.x_size], dtype=dtype.as_torch())
+        chopper = ones([self.t_in_size], dtype=dtype.as_torch())
         self.register_buffer("chopper", chopper)
 
         # set auto-scale base scale
@@ -213,8 +213,10 @@ class TransferSimulatorTile(SimulatorTile, Module):
         # gradient accumulation
         self.grad_tile.set_learning_rate(lr_a)
 
-        if self.chopper is not None:
-            x_input *= self.chopper
+        if cfg.transfer_columns:
+            x_input = x_input * self.chopper
+        else:
+            d_input = d_input * self.chopper
 
         self.grad_tile.tile.update(x_input, d_input, bias, in_trans, out_trans, non_blocking)
         self.update_counter += m_batch
-- 
2.43.0


From 88012282585773b12dfb32dc2296e3109c222a8a Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 05:32:48 +0000
Subject: [PATCH 122/139] fix: buffer of the torch transfer tile keeps the
 momentum fraction and what cannot be written

---
 src/aihwkit/simulator/tiles/transfer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/transfer.py b/src/aihwkit/simulator/tiles/transfer.py
index 542b357..e4b558c 100644
--- a/src/aihwkit/simulator/tiles/transfer.py
+++ b/src/aihwkit/simulator/tiles/transfer.py
@@ -273,9 +273,11 @@ class TransferSimulatorTile(SimulatorTile, Module):
                 self.hidden_weight[k] += lr_h * self.chopper[k] * omega
 
             # compute update weight
+            max_steps = cfg.transfer_update.desired_bl
             write_values = -trunc(self.hidden_weight[k])  # negative because of update LR
+            write_values = write_values.clamp(-max_steps, max_steps)
             if cfg.forget_buffer:
-                self.hidden_weight[k][write_values != 0] = cfg.momentum
+                self.hidden_weight[k][write_values != 0] *= cfg.momentum
             else:
                 self.hidden_weight[k] += write_values * (1 - cfg.momentum)
 
-- 
2.43.0


From fcb97f1937a80bb051b3c1f9c5811a196a5ac998 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 05:32:48 +0000
Subject: [PATCH 123/139] fix: auto scale of the torch transfer tile starts
 with the first gradient magnitude

---
 src/aihwkit/simulator/tiles/transfer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/transfer.py b/src/aihwkit/simulator/tiles/transfer.py
index e4b558c..624b6c1 100644
--- a/src/aihwkit/simulator/tiles/transfer.py
+++ b/src/aihwkit/simulator/tiles/transfer.py
@@ -201,8 +201,11 @@ class TransferSimulatorTile(SimulatorTile, Module):
             m_x = x_input.abs().max().item()
             m_d = d_input.abs().max().item()
 
-            self.m_x = (1 - tau) * self.m_x + tau * m_x  # type: ignore
-            self.m_d = (1 - tau) * self.m_d + tau * m_d  # type: ignore
+            # the first value initializes the average, zero vectors do not contribute
+            if m_x > 0.0:
+                self.m_x = (1 - tau) * self.m_x + tau * m_x if self.m_x > 0.0 else m_x
+            if m_d > 0.0:
+                self.m_d = (1 - tau) * self.m_d + tau * m_d if self.m_d > 0.0 else m_d
 
             if self.m_x > 0.0 and self.m_d > 0.0:
                 lr_a /= self.m_x * self.m_d
-- 
2.43.0


From 031e15f0d7d6d5407283837e09e80e35797c2f5e Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 05:32:48 +0000
Subject: [PATCH 124/139] fix: torch transfer tile uses the transfer and the
 fast learning rate settings

---
 src/aihwkit/simulator/tiles/transfer.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/transfer.py b/src/aihwkit/simulator/tiles/transfer.py
index 624b6c1..ad84e26 100644
--- a/src/aihwkit/simulator/tiles/transfer.py
+++ b/src/aihwkit/simulator/tiles/transfer.py
@@ -194,7 +194,7 @@ class TransferSimulatorTile(SimulatorTile, Module):
 
         # dynamically adjust learning rates
 
-        if cfg.auto_scale:
+        if cfg.auto_scale and cfg.fast_lr > 0.0:
             lr_a = self.lr_a_auto_scale
             tau = (1.0 - cfg.auto_momentum) / m_batch
 
@@ -213,6 +213,15 @@ class TransferSimulatorTile(SimulatorTile, Module):
         else:
             lr_a = cfg.fast_lr
 
+        if cfg.fast_lr <= 0.0:
+            lr_a = self.learning_rate
+        elif cfg.scale_fast_lr:
+            lr_a *= self.learning_rate
+
+        lr_c = cfg.transfer_lr
+        if cfg.scale_transfer_lr:
+            lr_c *= self.learning_rate
+
         # gradient accumulation
         self.grad_tile.set_learning_rate(lr_a)
 
@@ -243,9 +252,9 @@ class TransferSimulatorTile(SimulatorTile, Module):
 
             if cfg.correct_gradient_magnitudes:
                 buffer_granularity *= self.to_weight_granularity / self.from_weight_granularity
-                lr_h = self.learning_rate / lr_a / buffer_granularity
+                lr_h = abs(lr_c) / lr_a / buffer_granularity
             else:
-                lr_h = self.learning_rate / buffer_granularity
+                lr_h = abs(lr_c) / buffer_granularity
 
             chop_period = int(round(1.0 / cfg.in_chop_prob)) if cfg.in_chop_prob > 0 else 1
 
-- 
2.43.0


From 0d6b432d49b055ff8147a9c7c2c09d5a5912c359 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 05:32:48 +0000
Subject: [PATCH 125/139] fix: torch transfer tile starts with the first slice
 and switches choppers with the documented period

---
 src/aihwkit/simulator/tiles/transfer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/transfer.py b/src/aihwkit/simulator/tiles/transfer.py
index ad84e26..a590c49 100644
--- a/src/aihwkit/simulator/tiles/transfer.py
+++ b/src/aihwkit/simulator/tiles/transfer.py
@@ -66,7 +66,7 @@ class TransferSimulatorTile(SimulatorTile, Module):
         self.d_size = d_size
         self.update_counter = 0
         self.chop_counter = 0
-        self.transfer_idx = 0
+        self.transfer_idx = -1  # first transfer is for index 0
         self.learning_rate = 0.1
 
         self.m_x = 0.0
@@ -256,7 +256,7 @@ class TransferSimulatorTile(SimulatorTile, Module):
             else:
                 lr_h = abs(lr_c) / buffer_granularity
 
-            chop_period = int(round(1.0 / cfg.in_chop_prob)) if cfg.in_chop_prob > 0 else 1
+            chop_period = max(int(ceil(1.0 / cfg.in_chop_prob)), 2) if cfg.in_chop_prob > 0 else 2
 
             if self._transfer_vec is None:
                 # construct on the fly
@@ -299,6 +299,7 @@ class TransferSimulatorTile(SimulatorTile, Module):
                 if cfg.in_chop_random:
                     switch_chopper = rand(1).item() < cfg.in_chop_prob
                 else:
+                    # switch all during the last cycle of the period
                     if k == 0:
                         self.chop_counter = (self.chop_counter + 1) % chop_period
                     switch_chopper = self.chop_counter == 0
-- 
2.43.0


From c4c2488438edb54429ee7ca568321bccfbe4bb49 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 05:33:33 +0000
Subject: [PATCH 126/139] fix: hidden parameters of the torch transfer tile do
 not alias the given tensor

---
 src/aihwkit/simulator/tiles/transfer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/transfer.py b/src/aihwkit/simulator/tiles/transfer.py
index a590c49..a193e3b 100644
--- a/src/aihwkit/simulator/tiles/transfer.py
+++ b/src/aihwkit/simulator/tiles/transfer.py
@@ -420,7 +420,7 @@ class TransferSimulatorTile(SimulatorTile, Module):
                 weight = params[names.index(name), :, :]
                 if self.device_config.transfer_columns:
                     weight = weight.T
-                buffer.data = weight
+                buffer.data.copy_(weight)
 
     def get_learning_rate(self) -> Optional[float]:
         """Get the learning rate of the tile.
-- 
2.43.0


From f323b961054e2f3d03b4b4a5d8b78e2fc022f1f5 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 05:33:57 +0000
Subject: [PATCH 127/139] fix: transfer schedule of the torch transfer tile is
 stored in the state

---
 src/aihwkit/simulator/tiles/transfer.py | 48 +++++++++++++++++++++++--
 1 file changed, 45 insertions(+), 3 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/transfer.py b/src/aihwkit/simulator/tiles/transfer.py
index a193e3b..69799b8 100644
--- a/src/aihwkit/simulator/tiles/transfer.py
+++ b/src/aihwkit/simulator/tiles/transfer.py
@@ -17,7 +17,11 @@ from torch.nn import Module
 from torch.autograd import no_grad
 
 from aihwkit.exceptions import ConfigError
-from aihwkit.simulator.tiles.base import SimulatorTileWrapper, SimulatorTile
+from aihwkit.simulator.tiles.base import (
+    AnalogTileStateNames,
+    SimulatorTileWrapper,
+    SimulatorTile,
+)
 from aihwkit.simulator.tiles.analog import AnalogTileWithoutPeriphery
 from aihwkit.simulator.tiles.module import TileModule
 from aihwkit.simulator.tiles.periphery import TileWithPeriphery
@@ -57,6 +61,9 @@ class TransferSimulatorTile(SimulatorTile, Module):
 
     """
 
+    counter_names = ("update_counter", "chop_counter", "transfer_idx", "m_x", "m_d")
+    """State of the transfer schedule that needs to be stored."""
+
     def __init__(
         self, x_size: int, d_size: int, rpu_config: "UnitCellRPUConfig", dtype: RPUDataType
     ):
@@ -465,8 +472,19 @@ class TransferSimulatorTile(SimulatorTile, Module):
         return {
             "weight_tile": self.weight_tile.tile.dump_extra(),
             "grad_tile": self.grad_tile.tile.dump_extra(),
+            "counters": self.get_counters(),
         }
 
+    def get_counters(self) -> Dict:
+        """Returns the current position in the transfer schedule."""
+        return {name: getattr(self, name) for name in self.counter_names}
+
+    def set_counters(self, counters: Dict) -> None:
+        """Sets the position in the transfer schedule."""
+        for name in self.counter_names:
+            if name in counters:
+                setattr(self, name, counters[name])
+
     def load_extra(self, extra: Dict, strict: bool = False) -> None:
         """Load any extra states / attributed necessary for
         loading from checkpoint.
@@ -489,8 +507,11 @@ class TransferSimulatorTile(SimulatorTile, Module):
 
         if "grad_tile" not in extra or "weight_tile" not in extra:
             raise RuntimeError("Wrong keys")
-        self.weight_tile.load_extra(extra["weight_tile"], strict)
-        self.grad_tile.load_extra(extra["grad_tile"], strict)
+        if strict and "counters" not in extra:
+            raise RuntimeError("Wrong keys: 'counters' are missing")
+        self.weight_tile.tile.load_extra(extra["weight_tile"], strict)
+        self.grad_tile.tile.load_extra(extra["grad_tile"], strict)
+        self.set_counters(extra.get("counters", {}))
 
     def set_weights_uniform_random(self, bmin: float, bmax: float) -> None:
         """Sets the weights to uniform random numbers.
@@ -624,6 +645,27 @@ class TorchTransferTile(TileModule, TileWithPeriphery, SimulatorTileWrapper):
             return out + self.bias.view(*tensor_view)
         return out
 
+    def get_analog_state(self) -> Dict:
+        """Get the analog state for the state_dict.
+
+        The weights are stored by the children tiles. In addition, the position
+        in the transfer schedule is needed to continue the training.
+        """
+        state = super().get_analog_state()
+        state[AnalogTileStateNames.EXTRA] = self.tile.get_counters()
+        state[AnalogTileStateNames.LR] = self.tile.get_learning_rate()
+        return state
+
+    def __setstate__(self, state: Dict) -> None:
+        """Set the state after unpickling or loading of the state dict."""
+        current_dict = state.copy()
+        counters = current_dict.pop(AnalogTileStateNames.EXTRA, None)
+        analog_lr = current_dict.pop(AnalogTileStateNames.LR, None)
+        super().__setstate__(current_dict)
+        if counters is not None:
+            self.tile.set_counters(counters)
+        self.tile.set_learning_rate(analog_lr)
+
     @no_grad()
     def post_update_step(self) -> None:
         """Operators that need to be called once per mini-batch.
-- 
2.43.0


From 51bab5dc0239d3ee300d3e4901fd3c61e85f2828 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 05:33:57 +0000
Subject: [PATCH 128/139] fix: torch transfer tile refuses settings that are
 not implemented

---
 src/aihwkit/simulator/tiles/transfer.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/aihwkit/simulator/tiles/transfer.py b/src/aihwkit/simulator/tiles/transfer.py
index 69799b8..5e47e03 100644
--- a/src/aihwkit/simulator/tiles/transfer.py
+++ b/src/aihwkit/simulator/tiles/transfer.py
@@ -64,6 +64,21 @@ class TransferSimulatorTile(SimulatorTile, Module):
     counter_names = ("update_counter", "chop_counter", "transfer_idx", "m_x", "m_d")
     """State of the transfer schedule that needs to be stored."""
 
+    unsupported_settings = (
+        "gamma",
+        "gamma_vec",
+        "out_chop_prob",
+        "no_buffer",
+        "buffer_cap",
+        "random_selection",
+        "with_reset_prob",
+        "transfer_every_vec",
+        "transfer_lr_vec",
+        "experimental_correct_accumulation",
+        "experimental_fast_lr_feedback",
+    )
+    """Settings that need to be turned off."""
+
     def __init__(
         self, x_size: int, d_size: int, rpu_config: "UnitCellRPUConfig", dtype: RPUDataType
     ):
@@ -87,6 +102,13 @@ class TransferSimulatorTile(SimulatorTile, Module):
         self.device_config = rpu_config.device  # type: ChoppedTransferCompound
 
         cfg = self.device_config
+        for name in self.unsupported_settings:
+            if getattr(cfg, name, None):
+                raise ConfigError(
+                    "Setting {}={} is not supported by the python transfer "
+                    "implementation.".format(name, getattr(cfg, name))
+                )
+
         rpu_config_0 = SingleRPUConfig(
             device=deepcopy(cfg.unit_cell_devices[0]),
             forward=deepcopy(cfg.transfer_forward),
-- 
2.43.0


From a1857ede5b0d94ffd505ddb11b0bb79db2a17d30 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 05:39:46 +0000
Subject: [PATCH 129/139] fix: fast array of the torch transfer tile starts at
 zero

---
 src/aihwkit/simulator/tiles/transfer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aihwkit/simulator/tiles/transfer.py b/src/aihwkit/simulator/tiles/transfer.py
index 5e47e03..ffa36b6 100644
--- a/src/aihwkit/simulator/tiles/transfer.py
+++ b/src/aihwkit/simulator/tiles/transfer.py
@@ -125,6 +125,8 @@ class TransferSimulatorTile(SimulatorTile, Module):
         )
 
         self.grad_tile = rpu_config_0.tile_class(d_size, x_size, rpu_config_0)
+        # the fast array starts without any gradient (as the compiled devices)
+        self.grad_tile.tile.set_weights(zeros(d_size, x_size, dtype=dtype.as_torch()))
         self.weight_tile = rpu_config_1.tile_class(d_size, x_size, rpu_config_1)
         self.from_weight_granularity = rpu_config_0.device.as_bindings(
             dtype
-- 
2.43.0


From 70c9d6e3ad6050d448c01dd7101e8ecfea28d785 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 05:40:19 +0000
Subject: [PATCH 130/139] fix: automatic granularity of the torch transfer tile
 uses the documented period

---
 src/aihwkit/simulator/tiles/transfer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/transfer.py b/src/aihwkit/simulator/tiles/transfer.py
index ffa36b6..2cb1ad6 100644
--- a/src/aihwkit/simulator/tiles/transfer.py
+++ b/src/aihwkit/simulator/tiles/transfer.py
@@ -276,7 +276,7 @@ class TransferSimulatorTile(SimulatorTile, Module):
             # transfer learning rate lr_h
             buffer_granularity = cfg.buffer_granularity if cfg.buffer_granularity > 0.0 else 1.0
             if cfg.auto_granularity > 0.0:
-                period = self.t_in_size * transfer_every
+                period = self.t_in_size * cfg.transfer_every
                 buffer_granularity *= self.from_weight_granularity * cfg.auto_granularity / period
             else:
                 buffer_granularity *= self.from_weight_granularity
-- 
2.43.0


From 915083c9ff2117d2b9de82545c3ebf5cd2e62686 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 06:03:50 +0000
Subject: [PATCH 131/139] fix: zero input of the torch tile keeps the gradient

---
 src/aihwkit/simulator/tiles/analog_mvm.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/analog_mvm.py b/src/aihwkit/simulator/tiles/analog_mvm.py
index d9cfe55..332151c 100644
--- a/src/aihwkit/simulator/tiles/analog_mvm.py
+++ b/src/aihwkit/simulator/tiles/analog_mvm.py
@@ -9,7 +9,7 @@
 from typing import Union, Any, Optional
 from numbers import Number
 
-from torch import Tensor, zeros, randn_like, clamp, bmm, where
+from torch import Tensor, randn_like, clamp, bmm, where
 from torch.autograd import no_grad
 
 from aihwkit.exceptions import ConfigError
@@ -76,7 +76,6 @@ class AnalogMVM:
             input_=input_, nm_type=io_pars.noise_management, io_pars=io_pars
         )
 
-        out_size = input_.shape[:-1] + (weight.shape[int(trans)],)
         n_management = io_pars.noise_management != NoiseManagementType.NONE
         b_management = io_pars.bound_management != BoundManagementType.NONE
         if (
@@ -84,8 +83,8 @@ class AnalogMVM:
             and isinstance(nm_scale_values, Tensor)
             and (input_ == 0.0).all()
         ):
-            # - Shortcut, output would be all zeros
-            return zeros(size=out_size, device=input_.device, dtype=input_.dtype)
+            # - Shortcut, output is all zeros (but still a function of weight and input)
+            return cls._matmul(weight, input_, trans)
 
         if isinstance(nm_scale_values, Tensor):
             # set zeros to 1 to avoid divide-by-zero errors
-- 
2.43.0


From a6ca5dc532d52a4500b33daa965349fc867ef266 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 06:31:13 +0000
Subject: [PATCH 132/139] fix: current checkpoints are recognized by the
 conversion of legacy checkpoints

---
 src/aihwkit/utils/legacy.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/aihwkit/utils/legacy.py b/src/aihwkit/utils/legacy.py
index 135d037..edacca0 100644
--- a/src/aihwkit/utils/legacy.py
+++ b/src/aihwkit/utils/legacy.py
@@ -71,6 +71,13 @@ def convert_legacy_checkpoint(
             new_key = "analog_module." + par_name + ending
         return new_key
 
+    legacy_chkpt = deepcopy(legacy_chkpt)
+    for key, value in legacy_chkpt.items():
+        if key.endswith(".analog_tile_state") and ("analog_module." in key or "array." in key):
+            # this is actually a new checkpoint. abort.
+            rpu_config = deepcopy(value["rpu_config"])
+            return legacy_chkpt, rpu_config
+
     has_mapped = False
     layer_dic = {}
     if model is not None:
@@ -78,17 +85,10 @@ def convert_legacy_checkpoint(
             has_mapped = has_mapped or "Mapped" in analog_layer.__class__.__name__
             layer_dic[name] = analog_layer.__class__.__name__
 
-    if not has_mapped:
-        for tile in model.analog_tiles():  # type: ignore
-            tile.rpu_config.mapping.max_input_size = 0
-            tile.rpu_config.mapping.max_output_size = 0
-
-    legacy_chkpt = deepcopy(legacy_chkpt)
-    for key, value in legacy_chkpt.items():
-        if "analog_model.analog_tile_state" in key:
-            # this is actually a new checkpoint. abort.
-            rpu_config = deepcopy(value["rpu_config"])
-            return legacy_chkpt, rpu_config
+        if not has_mapped:
+            for tile in model.analog_tiles():
+                tile.rpu_config.mapping.max_input_size = 0
+                tile.rpu_config.mapping.max_output_size = 0
 
     for key, value in legacy_chkpt.items():
         if "analog_tile_state" in key:
-- 
2.43.0


From 9502c8f4c692534e6e972e90ddaa6a2d94c8bf72 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 06:31:13 +0000
Subject: [PATCH 133/139] fix: weight templates can be given by an url

---
 src/aihwkit/experiments/experiments/inferencing.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/aihwkit/experiments/experiments/inferencing.py b/src/aihwkit/experiments/experiments/inferencing.py
index d9128d7..e3557eb 100644
--- a/src/aihwkit/experiments/experiments/inferencing.py
+++ b/src/aihwkit/experiments/experiments/inferencing.py
@@ -175,6 +175,7 @@ class BasicInferencing(Experiment):
                 template_dir = "/tmp/weight_templates"
                 if weight_template_id.startswith("http"):
                     template_url = weight_template_id
+                    template_path = template_dir + "/" + path.basename(weight_template_id)
                 else:
                     # print('weights_template_id: ', weight_template_id)
                     template_path = template_dir + "/" + weight_template_id + ".pth"
-- 
2.43.0


From 38bdbe62fbae9ad55a49a2538c9417abb8409655 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 06:40:44 +0000
Subject: [PATCH 134/139] fix: cloud experiments know their input and kind when
 fetched

---
 src/aihwkit/cloud/client/entities.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/aihwkit/cloud/client/entities.py b/src/aihwkit/cloud/client/entities.py
index 8eff579..a779609 100644
--- a/src/aihwkit/cloud/client/entities.py
+++ b/src/aihwkit/cloud/client/entities.py
@@ -85,9 +85,15 @@ class CloudExperiment:
         if self.status() == CloudJobStatus.UNKNOWN:
             raise ExperimentStatusError("Experiment input is not available")
 
+        if self.input_id is None:
+            # The input of a just created experiment is not known yet.
+            self.input_id = self._api_client.experiment_get(self.id_).input_id
+            if self.input_id is None:
+                raise ExperimentStatusError("Experiment input is not available")
+
         input_ = self._api_client.input_get(self.input_id)
 
-        if "InferenceRPUConfig" in str(input_):
+        if self.category == CloudExperimentCategory.BASIC_INFERENCE:
             input_proto = InferenceInput()
             input_proto.ParseFromString(input_)
             proto = BasicInferencingConverter().from_proto(input_proto)
-- 
2.43.0


From 43a79242636b702fadfce19359c6958e0457491f Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 07:46:37 +0000
Subject: [PATCH 135/139] fix: calibration leaves the model usable when it is
 refused or its data fail

---
 .../inference/calibration/calibration.py      | 56 ++++++++++++-------
 1 file changed, 35 insertions(+), 21 deletions(-)

diff --git a/src/aihwkit/inference/calibration/calibration.py b/src/aihwkit/inference/calibration/calibration.py
index c405e6d..c62df62 100644
--- a/src/aihwkit/inference/calibration/calibration.py
+++ b/src/aihwkit/inference/calibration/calibration.py
@@ -179,6 +179,20 @@ def calibrate_input_ranges(
     if not isinstance(model, AnalogLayerBase) or not isinstance(model, Module):
         raise ArgumentError("Expect an analog module")
 
+    if not force_all_layers:
+        # check before anything is changed
+        for _, tile in model.named_analog_tiles():
+            rpu_config = tile.rpu_config
+            if (
+                isinstance(rpu_config, PrePostProcessingRPU)
+                and hasattr(rpu_config, "forward")
+                and rpu_config.pre_post.input_range.enable
+                and rpu_config.forward.noise_management != NoiseManagementType.NONE
+            ):
+                raise ConfigError(
+                    "Noise management should be turned off for input_range calibration."
+                )
+
     was_training = cast(Module, model).training
     model = cast(Module, model).eval()
     handles = []
@@ -210,10 +224,6 @@ def calibrate_input_ranges(
 
         io_pars = rpu_config.forward  # type: IOParameters
         if io_pars.noise_management != NoiseManagementType.NONE:
-            if not force_all_layers:
-                raise ConfigError(
-                    "Noise management should be turned off for input_range calibration."
-                )
             io_pars.noise_management = NoiseManagementType.NONE
             needs_set_state = True
 
@@ -244,12 +254,27 @@ def calibrate_input_ranges(
 
     # Pass through the samples
     progress_bar = tqdm if verbose else lambda x: x
-    for args, kwargs in progress_bar(dataloader):  # type: ignore
-        model(*args, **kwargs)
-
-    # Remove hooks
-    for handle in handles:
-        handle.remove()
+    try:
+        for args, kwargs in progress_bar(dataloader):  # type: ignore
+            model(*args, **kwargs)
+    finally:
+        # Remove hooks
+        for handle in handles:
+            handle.remove()
+
+        # Restore the tiles if necessary
+        for tile_name, tile in model.named_analog_tiles():
+            if tile_name not in is_perfect_dic:
+                continue
+            if tile.rpu_config.forward.is_perfect != is_perfect_dic[tile_name]:
+                tile_state = tile.__getstate__()
+                tile_state[AnalogTileStateNames.RPU_CONFIG].forward.is_perfect = is_perfect_dic[
+                    tile_name
+                ]
+                tile.__setstate__(tile_state)
+
+        if was_training:
+            model = cast(Module, model).train()
 
     for tile_name, tile in model.named_analog_tiles():
         rpu_config = tile.rpu_config
@@ -260,14 +285,6 @@ def calibrate_input_ranges(
         if not force_all_layers and not rpu_config.pre_post.input_range.enable:
             continue
 
-        # Restore the tile if necessary
-        if rpu_config.forward.is_perfect != is_perfect_dic[tile_name]:
-            tile_state = tile.__getstate__()
-            tile_state[AnalogTileStateNames.RPU_CONFIG].forward.is_perfect = is_perfect_dic[
-                tile_name
-            ]
-            tile.__setstate__(tile_state)
-
         inputs = cache[tile_name]
         if inputs.numel() == 0:
             if verbose:
@@ -291,9 +308,6 @@ def calibrate_input_ranges(
         rpu_config.pre_post.input_range.init_value = tile.input_range.item()
         rpu_config.pre_post.input_range.calibration_info = calibration_type.value
 
-    if was_training:
-        model = cast(Module, model).train()
-
 
 def calibrate_quantization_ranges(
     model: Module, loader: DataLoader, max_num_batches: int = 20
-- 
2.43.0


From b333761111f461a3464401f153d3d826292b163e Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 07:46:37 +0000
Subject: [PATCH 136/139] fix: refused weights or biases do not set the others

---
 src/aihwkit/simulator/tiles/array.py     |  7 ++++---
 src/aihwkit/simulator/tiles/periphery.py | 19 ++++++++++++-------
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/array.py b/src/aihwkit/simulator/tiles/array.py
index ebef4f9..50b6f01 100644
--- a/src/aihwkit/simulator/tiles/array.py
+++ b/src/aihwkit/simulator/tiles/array.py
@@ -109,6 +109,10 @@ class TileModuleArray(Module, TileModuleBase):
         shape = [self.out_size, self.in_size]
         weight = weight.detach().reshape(shape)
 
+        # raises if it does not fit, thus first
+        if self.bias is not None and bias is not None:
+            self.bias.data.copy_(bias)
+
         in_start = in_end = 0
         for in_size, in_tiles in zip(self.in_sizes, self.array):
             in_end += in_size
@@ -123,9 +127,6 @@ class TileModuleArray(Module, TileModuleBase):
                 out_start = out_end
             in_start = in_end
 
-        if self.bias is not None and bias is not None:
-            self.bias.data.copy_(bias)
-
     @no_grad()
     def get_weights(self, **kwargs: Any) -> Tuple[Tensor, Optional[Tensor]]:
         """Get the (combined) weight (and bias) tensors from the analog crossbar(s).
diff --git a/src/aihwkit/simulator/tiles/periphery.py b/src/aihwkit/simulator/tiles/periphery.py
index abf6814..f8d30aa 100644
--- a/src/aihwkit/simulator/tiles/periphery.py
+++ b/src/aihwkit/simulator/tiles/periphery.py
@@ -154,17 +154,23 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
                 the mapping field.
 
         """
-        self.reset_reference_weights()
-
+        digital_bias = None
         if bias is not None and self.digital_bias:
-            if not isinstance(bias, Tensor):
-                bias = from_numpy(array(bias))
-
-            self.bias.data.copy_(bias)
+            digital_bias = bias if isinstance(bias, Tensor) else from_numpy(array(bias))
             bias = None
 
+        # raises if the weights do not fit, thus first
         if hasattr(self.tile, "set_weights_cuda"):
             combined_weights = self._combine_weights_cuda(weight, bias)
+        else:
+            combined_weights = self._combine_weights(weight, bias)
+
+        if digital_bias is not None:
+            self.bias.data.copy_(digital_bias)
+
+        self.reset_reference_weights()
+
+        if hasattr(self.tile, "set_weights_cuda"):
             if apply_weight_scaling:
                 # apply_weight_scaling works on any device; re-transpose after.
                 combined_weights = self.apply_weight_scaling(
@@ -172,7 +178,6 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
                 ).t().contiguous()
             self.tile.set_weights_cuda(combined_weights)
         else:
-            combined_weights = self._combine_weights(weight, bias)
             if apply_weight_scaling:
                 combined_weights = self.apply_weight_scaling(combined_weights, weight_scaling_omega)
             self.tile.set_weights(combined_weights)
-- 
2.43.0


From 71c300f38244243c405466121d152b73a86ba9c7 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 07:46:38 +0000
Subject: [PATCH 137/139] fix: a state with other hidden parameters is refused
 before the tile is replaced

---
 src/aihwkit/simulator/tiles/base.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/aihwkit/simulator/tiles/base.py b/src/aihwkit/simulator/tiles/base.py
index e76e298..80c2f68 100644
--- a/src/aihwkit/simulator/tiles/base.py
+++ b/src/aihwkit/simulator/tiles/base.py
@@ -731,6 +731,16 @@ class SimulatorTileWrapper:
                         "Error creating tile"
                         f". Possible mismatch between {tile_class} and {type(self).__name__}"
                     )
+                if (
+                    rpu_config is self.rpu_config
+                    and len(hidden_parameters_names) > 0
+                    and self.tile.get_hidden_parameter_names() != hidden_parameters_names
+                ):
+                    # the tile stays as it is
+                    raise TileError(
+                        "Mismatch with loaded analog state: "
+                        "Hidden parameter structure is unexpected."
+                    )
                 # Need to always keep the same tile class
                 rpu_config.tile_class = self.rpu_config.tile_class
 
-- 
2.43.0


From 74bffa38d394e347e73b6272fa6b7f5ae51a8601 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 07:54:27 +0000
Subject: [PATCH 138/139] fix: backward parameters can be given as keywords

---
 src/aihwkit/simulator/tiles/rpucuda.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/rpucuda.py b/src/aihwkit/simulator/tiles/rpucuda.py
index 2aa8770..25a238f 100644
--- a/src/aihwkit/simulator/tiles/rpucuda.py
+++ b/src/aihwkit/simulator/tiles/rpucuda.py
@@ -361,7 +361,7 @@ class RPUCudaSimulatorTileWrapper(SimulatorTileWrapper):
         return self._get_extra_parameters("fb_pass.bwd.")[0]  # type: ignore
 
     def set_backward_parameters(
-        self, dic: Optional[Dict[str, Tensor]], **kwargs: Dict[str, Tensor]
+        self, dic: Optional[Dict[str, Tensor]] = None, **kwargs: Dict[str, Tensor]
     ) -> None:
         """Set the additional parameters generated for the backward pass.
 
-- 
2.43.0


From 5c9d130b6a6fea856d395e25b78c9d771cccc620 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 07:54:27 +0000
Subject: [PATCH 139/139] fix: forward parameters with unknown keys are refused
 before any is set

---
 src/aihwkit/simulator/tiles/inference_torch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/inference_torch.py b/src/aihwkit/simulator/tiles/inference_torch.py
index 215d44e..8c8082a 100644
--- a/src/aihwkit/simulator/tiles/inference_torch.py
+++ b/src/aihwkit/simulator/tiles/inference_torch.py
@@ -286,6 +286,8 @@ class TorchInferenceTile(TileModule, InferenceTileWithPeriphery, SimulatorTileWr
         if dic is None:
             dic = kwargs
         par_lst = ["out_noise_values"]
+        if set(par_lst) != set(list(dic.keys())):
+            raise ArgumentError("Unknown parameter keys given!")
         for par in par_lst:
             if par in dic:
                 current_value = getattr(self.tile, par)
@@ -296,5 +298,3 @@ class TorchInferenceTile(TileModule, InferenceTileWithPeriphery, SimulatorTileWr
                     raise ArgumentError(f"{par} size mismatch!")
 
                 setattr(self.tile, par, new_value.reshape(*current_value.shape))
-        if set(par_lst) != set(list(dic.keys())):
-            raise ArgumentError("Unknown parameter keys given!")
-- 
2.43.0

