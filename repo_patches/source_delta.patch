From 9554d93f8c43f8cad8dd015c5fa27673b368656f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:49 +0000
Subject: [PATCH 01/97] fix: SE2.log_map is inaccurate or NaN for rotation
 angles near pi

---
 theseus/geometry/se2.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/theseus/geometry/se2.py b/theseus/geometry/se2.py
index 8b26a85..a48e240 100644
--- a/theseus/geometry/se2.py
+++ b/theseus/geometry/se2.py
@@ -174,13 +174,18 @@ class SE2(LieGroup):
             "se2", "near_zero", theta.dtype
         )
         non_zero = torch.ones(1, dtype=self.dtype, device=self.device)
-        sine_nz = torch.where(small_theta, non_zero, sine)
-        half_theta_by_tan_half_theta = (
+        half_theta = 0.5 * theta
+        # (1 + cosine) / sine is ill-conditioned as theta approaches pi, where the
+        # equivalent expression sine / (1 - cosine) is used instead
+        large_theta = cosine < 0
+        sine_nz = torch.where(small_theta | large_theta, non_zero, sine)
+        half_theta_by_tan_half_theta = torch.where(
+            large_theta,
+            half_theta * sine / torch.where(large_theta, 1 - cosine, non_zero),
             0.5
             * (1 + cosine)
-            * torch.where(small_theta, 1 + sine**2 / 6, theta / sine_nz)
+            * torch.where(small_theta, 1 + sine**2 / 6, theta / sine_nz),
         )
-        half_theta = 0.5 * theta
 
         # Compute the translation
         ux = half_theta_by_tan_half_theta * self[:, 0] + half_theta * self[:, 1]
-- 
2.43.0


From f3edc2babf73c132b6e1698ff78997b144342cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:49 +0000
Subject: [PATCH 02/97] fix: wrong small angle expansion in the jacobian of
 SE2.exp_map

---
 theseus/geometry/se2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theseus/geometry/se2.py b/theseus/geometry/se2.py
index a48e240..f7ac70c 100644
--- a/theseus/geometry/se2.py
+++ b/theseus/geometry/se2.py
@@ -277,7 +277,7 @@ class SE2(LieGroup):
             SE2._check_jacobians_list(jacobians)
             theta2_nz = torch.where(small_theta, non_zero, theta2)
             theta_minus_sine_by_theta2 = torch.where(
-                small_theta, theta - theta3 / 120, (theta - sine) / theta2_nz
+                small_theta, theta / 6 - theta3 / 120, (theta - sine) / theta2_nz
             )
             cosine_minus_one_by_theta2 = torch.where(
                 small_theta, -0.5 + theta2 / 24, (cosine - 1) / theta2_nz
-- 
2.43.0


From b3d0d32bac8e7fff85d60c15b07c855346f04c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:00 +0000
Subject: [PATCH 03/97] fix: SO3.to_quaternion loses accuracy for rotation
 angles slightly below pi

---
 theseus/geometry/so3.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/theseus/geometry/so3.py b/theseus/geometry/so3.py
index a9abfe8..69dc6a5 100644
--- a/theseus/geometry/so3.py
+++ b/theseus/geometry/so3.py
@@ -198,7 +198,10 @@ class SO3(LieGroup):
         w = 0.5 * (1 + self[:, 0, 0] + self[:, 1, 1] + self[:, 2, 2]).clamp(0, 4).sqrt()
 
         near_zero = w > 1 - _THESEUS_GLOBAL_PARAMS.get_eps("so3", "near_zero", w.dtype)
-        near_pi = w <= _THESEUS_GLOBAL_PARAMS.get_eps("so3", "near_pi", w.dtype)
+        cosine_near_pi = 0.5 * (self[:, 0, 0] + self[:, 1, 1] + self[:, 2, 2] - 1)
+        near_pi = 1 + cosine_near_pi <= _THESEUS_GLOBAL_PARAMS.get_eps(
+            "so3", "near_pi", w.dtype
+        )
         non_zero = self.tensor.new_ones([1])
 
         ret = self.tensor.new_zeros(self.shape[0], 4)
@@ -214,7 +217,6 @@ class SO3(LieGroup):
         ) + 2 * torch.logical_and(ddiag[:, 2] > ddiag[:, 0], ddiag[:, 2] > ddiag[:, 1])
         aux = torch.ones(self.shape[0], dtype=torch.bool)
         sel_rows = 0.5 * (self[aux, major] + self[aux, :, major])
-        cosine_near_pi = 0.5 * (self[:, 0, 0] + self[:, 1, 1] + self[:, 2, 2] - 1)
         sel_rows[aux, major] -= cosine_near_pi
         axis = (
             sel_rows
-- 
2.43.0


From 43bc715fd1af6d2b8054802836ff03e5a9059d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:00 +0000
Subject: [PATCH 04/97] fix: LieTensor '*' composes its operands in reverse
 order

---
 torchlie/torchlie/lie_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchlie/torchlie/lie_tensor.py b/torchlie/torchlie/lie_tensor.py
index edf45d4..5e518ce 100644
--- a/torchlie/torchlie/lie_tensor.py
+++ b/torchlie/torchlie/lie_tensor.py
@@ -374,7 +374,7 @@ class LieTensor(_LieTensorBase):
                 f"Incorrect argument for '*' operator. "
                 f"Expected LieTensor, but got {type(other)}"
             )
-        return type_cast(LieTensor, other).compose(self)
+        return self.compose(type_cast(LieTensor, other))
 
     def __matmul__(self, point: TensorType) -> torch.Tensor:
         if isinstance(point, LieTensor):
-- 
2.43.0


From fd26660c68c34f205ec5425178b4b2e99a5402d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:53 +0000
Subject: [PATCH 05/97] fix: backward of SE3 untransform fails when a single
 point is broadcast over a batch of groups

---
 torchlie/torchlie/functional/se3_impl.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/torchlie/torchlie/functional/se3_impl.py b/torchlie/torchlie/functional/se3_impl.py
index 7c51ac8..91866e4 100644
--- a/torchlie/torchlie/functional/se3_impl.py
+++ b/torchlie/torchlie/functional/se3_impl.py
@@ -854,11 +854,10 @@ class Untransform(lie_group.BinaryOperator):
         tensor: torch.Tensor = ctx.saved_tensors[1]
         tmp_tensor = tensor.unsqueeze(-1) - group[..., -1:]
         grad_output: torch.Tensor = grad_output.unsqueeze(-1)
-        tensor_size = get_transform_tensor_size(tensor)
         grad_input1 = group[..., :3] @ grad_output
         grad_input0 = torch.cat(
             (
-                tmp_tensor.view(*tensor_size, 3, 1) @ grad_output.transpose(-1, -2),
+                tmp_tensor @ grad_output.transpose(-1, -2),
                 -grad_input1,
             ),
             dim=-1,
-- 
2.43.0


From 7b88584b71ccbba5434d4715b92147225e4f561c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:31 +0000
Subject: [PATCH 06/97] fix: SE3.check_hat_tensor rejects valid hat tensors (it
 looked at the last column, not the last row)

---
 torchlie/torchlie/functional/se3_impl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchlie/torchlie/functional/se3_impl.py b/torchlie/torchlie/functional/se3_impl.py
index 91866e4..6ed628c 100644
--- a/torchlie/torchlie/functional/se3_impl.py
+++ b/torchlie/torchlie/functional/se3_impl.py
@@ -50,7 +50,7 @@ def check_tangent_vector(tangent_vector: torch.Tensor):
 
 def check_hat_tensor(tensor: torch.Tensor):
     def _impl(t_: torch.Tensor):
-        if t_[..., -1].abs().max() > LIE_PARAMS.get_eps("se3", "hat", t_.dtype):
+        if t_[..., -1, :].abs().max() > LIE_PARAMS.get_eps("se3", "hat", t_.dtype):
             raise ValueError("The last row for hat tensors of SE3 must be zero")
 
         SO3.check_hat_tensor(t_[..., :3, :3])
-- 
2.43.0


From 348198d0f651deb3a287c6d8ed3c889c7c0423b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:31 +0000
Subject: [PATCH 07/97] fix: torchlie.functional jacobian operators of unary
 ops raise AttributeError

---
 torchlie/torchlie/functional/lie_group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchlie/torchlie/functional/lie_group.py b/torchlie/torchlie/functional/lie_group.py
index 0ed28d4..e544f4e 100644
--- a/torchlie/torchlie/functional/lie_group.py
+++ b/torchlie/torchlie/functional/lie_group.py
@@ -156,7 +156,7 @@ def UnaryOperatorFactory(
 
     def jop(input: torch.Tensor) -> Tuple[List[torch.Tensor], torch.Tensor]:
         _check_jacobians_supported(
-            jop_autograd_fn, module.name, op_name, is_kwarg=False
+            jop_autograd_fn, module.NAME, op_name, is_kwarg=False
         )
         return jop_autograd_fn(input)
 
-- 
2.43.0


From 9c2f08d3e5e26444e8aa178c9384e23911c02ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:14 +0000
Subject: [PATCH 08/97] fix: flatten_dims robust costs fail when the loss
 radius is batched or vectorized

---
 theseus/core/robust_cost_function.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/theseus/core/robust_cost_function.py b/theseus/core/robust_cost_function.py
index 8198fcb..7fb7efc 100644
--- a/theseus/core/robust_cost_function.py
+++ b/theseus/core/robust_cost_function.py
@@ -87,12 +87,13 @@ class RobustCostFunction(CostFunction):
     def weighted_error(self) -> torch.Tensor:
         weighted_error = self.cost_function.weighted_error()
         if self.flatten_dims:
-            weighted_error = weighted_error.reshape(-1, 1)
+            # One loss per error dimension, so that the loss parameters broadcast
+            # over dimensions, and not over the flattened (batch x dim) errors.
+            error_loss = self._evaluate_loss(weighted_error**2)
+            return (error_loss + RobustCostFunction._EPS).sqrt()
         squared_norm = torch.sum(weighted_error**2, dim=1, keepdim=True)
         error_loss = self._evaluate_loss(squared_norm)
 
-        if self.flatten_dims:
-            return (error_loss.reshape(-1, self.dim()) + RobustCostFunction._EPS).sqrt()
         # The return value is a hacky way to make it so that
         # ||weighted_error||^2 = error_loss
         # By doing this we avoid having to change the objective's error computation
@@ -118,20 +119,15 @@ class RobustCostFunction(CostFunction):
             weighted_error,
         ) = self.cost_function.weighted_jacobians_error()
         if self.flatten_dims:
-            weighted_error = weighted_error.reshape(-1, 1)
-            for i, wj in enumerate(weighted_jacobians):
-                weighted_jacobians[i] = wj.view(-1, 1, wj.shape[2])
-        squared_norm = torch.sum(weighted_error**2, dim=1, keepdim=True)
+            squared_norm = weighted_error**2
+        else:
+            squared_norm = torch.sum(weighted_error**2, dim=1, keepdim=True)
         rescale = (self._linearize(squared_norm) + RobustCostFunction._EPS).sqrt()
 
         rescaled_jacobians = [
-            rescale.view(-1, 1, 1) * jacobian for jacobian in weighted_jacobians
+            rescale.unsqueeze(2) * jacobian for jacobian in weighted_jacobians
         ]
         rescaled_error = rescale * weighted_error
-        if self.flatten_dims:
-            return [
-                rj.reshape(-1, self.dim(), rj.shape[2]) for rj in rescaled_jacobians
-            ], rescaled_error.reshape(-1, self.dim())
         return rescaled_jacobians, rescaled_error
 
     def dim(self) -> int:
-- 
2.43.0


From 13c561c41f0e5693b3d0a7a04dc642c93bb43e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:14 +0000
Subject: [PATCH 09/97] fix: GPCostWeight fails for a batch of dt with a single
 Qc_inv

---
 theseus/embodied/motionmodel/double_integrator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/theseus/embodied/motionmodel/double_integrator.py b/theseus/embodied/motionmodel/double_integrator.py
index cbd93a5..4bedf30 100644
--- a/theseus/embodied/motionmodel/double_integrator.py
+++ b/theseus/embodied/motionmodel/double_integrator.py
@@ -129,7 +129,8 @@ class GPCostWeight(CostWeight):
         return torch.zeros(self.Qc_inv.shape[0]).bool()
 
     def _compute_cost_weight(self) -> torch.Tensor:
-        batch_size, dof, _ = self.Qc_inv.shape
+        dof = self.Qc_inv.shape[1]
+        batch_size = max(self.Qc_inv.shape[0], self.dt.shape[0])
         cost_weight = torch.empty(
             batch_size,
             2 * dof,
-- 
2.43.0


From 1baf588a067e43c43dce48285829344f22834a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:19 +0000
Subject: [PATCH 10/97] fix: axis-aligned torchkin joints cannot be constructed
 or used with batched angles

---
 torchkin/torchkin/joint.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/torchkin/torchkin/joint.py b/torchkin/torchkin/joint.py
index 868bc55..a2053c0 100644
--- a/torchkin/torchkin/joint.py
+++ b/torchkin/torchkin/joint.py
@@ -287,9 +287,9 @@ class _RevoluteJointXYZImpl(_RevoluteJointImpl):
         info = _RevoluteJointXYZImpl.axis_info[self.axis_id]
         rot = angle.new_zeros(angle.shape[0], 3, 3)
         rot[:, info[0], info[0]] = 1
-        rot[:, info[1], info[1]] = angle.cos()
+        rot[:, info[1], info[1]] = angle.squeeze(1).cos()
         rot[:, info[2], info[2]] = rot[:, info[1], info[1]]
-        rot[:, info[2], info[1]] = angle.sin()
+        rot[:, info[2], info[1]] = angle.squeeze(1).sin()
         rot[:, info[1], info[2]] = -rot[:, info[2], info[1]]
 
         return rot
@@ -306,7 +306,7 @@ class RevoluteJointX(_RevoluteJointXYZImpl):
         dtype: Optional[torch.dtype] = None,
         device: DeviceType = None,
     ):
-        super().__init__(name, id, 0, parent_link, child_link, origin, dtype, device)
+        super().__init__(name, 0, id, parent_link, child_link, origin, dtype, device)
 
 
 class RevoluteJointY(_RevoluteJointXYZImpl):
@@ -320,7 +320,7 @@ class RevoluteJointY(_RevoluteJointXYZImpl):
         dtype: Optional[torch.dtype] = None,
         device: DeviceType = None,
     ):
-        super().__init__(name, id, 1, parent_link, child_link, origin, dtype, device)
+        super().__init__(name, 1, id, parent_link, child_link, origin, dtype, device)
 
 
 class RevoluteJointZ(_RevoluteJointXYZImpl):
@@ -334,7 +334,7 @@ class RevoluteJointZ(_RevoluteJointXYZImpl):
         dtype: Optional[torch.dtype] = None,
         device: DeviceType = None,
     ):
-        super().__init__(name, id, 2, parent_link, child_link, origin, dtype, device)
+        super().__init__(name, 2, id, parent_link, child_link, origin, dtype, device)
 
 
 class _PrismaticJointImpl(Joint):
@@ -434,7 +434,7 @@ class _PrismaticJointXYZImpl(_PrismaticJointImpl):
 
     def _translation_impl(self, angle: torch.Tensor) -> torch.Tensor:
         trans = angle.new_zeros(angle.shape[0], 3)
-        trans[:, self.axis_id] = angle
+        trans[:, self.axis_id] = angle.squeeze(1)
         return trans
 
     def _relative_pose_impl(self, angle: torch.Tensor) -> torch.Tensor:
@@ -457,7 +457,7 @@ class PrismaticJointX(_PrismaticJointXYZImpl):
         dtype: Optional[torch.dtype] = None,
         device: DeviceType = None,
     ):
-        super().__init__(name, id, 0, parent_link, child_link, origin, dtype, device)
+        super().__init__(name, 0, id, parent_link, child_link, origin, dtype, device)
 
 
 class PrismaticJointY(_PrismaticJointXYZImpl):
@@ -471,7 +471,7 @@ class PrismaticJointY(_PrismaticJointXYZImpl):
         dtype: Optional[torch.dtype] = None,
         device: DeviceType = None,
     ):
-        super().__init__(name, id, 1, parent_link, child_link, origin, dtype, device)
+        super().__init__(name, 1, id, parent_link, child_link, origin, dtype, device)
 
 
 class PrismaticJointZ(_PrismaticJointXYZImpl):
@@ -485,4 +485,4 @@ class PrismaticJointZ(_PrismaticJointXYZImpl):
         dtype: Optional[torch.dtype] = None,
         device: DeviceType = None,
     ):
-        super().__init__(name, id, 2, parent_link, child_link, origin, dtype, device)
+        super().__init__(name, 2, id, parent_link, child_link, origin, dtype, device)
-- 
2.43.0


From e354e2257f13e9cbad13243174dba040a9f72959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:19 +0000
Subject: [PATCH 11/97] fix: torchkin joints built without an origin have none

---
 torchkin/torchkin/joint.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/torchkin/torchkin/joint.py b/torchkin/torchkin/joint.py
index a2053c0..3dd4adb 100644
--- a/torchkin/torchkin/joint.py
+++ b/torchkin/torchkin/joint.py
@@ -117,6 +117,7 @@ class Joint(abc.ABC):
             origin[:, 0, 0] = 1
             origin[:, 1, 1] = 1
             origin[:, 2, 2] = 1
+            self._origin = origin
 
         self._name = name
         self._dof = dof
-- 
2.43.0


From d070620e07f1a544a79205df613b722b8757b484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:19 +0000
Subject: [PATCH 12/97] fix: Objective.error(also_update=False) does not revert
 auxiliary variables

---
 theseus/core/objective.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/theseus/core/objective.py b/theseus/core/objective.py
index 6b8121f..bf1eefd 100644
--- a/theseus/core/objective.py
+++ b/theseus/core/objective.py
@@ -587,8 +587,9 @@ class Objective:
         old_tensors = {}
         if input_tensors is not None:
             if not also_update:
-                for var in self.optim_vars:
-                    old_tensors[var] = self.optim_vars[var].tensor
+                for name in input_tensors:
+                    if name in self._all_variables:
+                        old_tensors[name] = self._all_variables[name].tensor
             # Update vectorization only if the input tensors will be used for a
             # persistent update.
             self.update(input_tensors=input_tensors, _update_vectorization=also_update)
-- 
2.43.0


From 505f2ed1377b8401cf7e03260f3514d479e27eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:19 +0000
Subject: [PATCH 13/97] fix: vectorizing an objective again serves unpopulated
 caches

---
 theseus/core/objective.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/theseus/core/objective.py b/theseus/core/objective.py
index bf1eefd..7c4f74d 100644
--- a/theseus/core/objective.py
+++ b/theseus/core/objective.py
@@ -933,6 +933,8 @@ class Objective:
         self._vectorization_to = vectorized_to
         self._retract_method = vectorized_retract_fn
         self._get_error_iter = error_iter_fn
+        # The new vectorization has not been run for any state of the variables
+        self._num_updates_variables = {}
         self._vectorized = True
 
     # Making public, since this should be a safe operation
-- 
2.43.0


From dc79b1da178831b3d4528d091333d5d4c2962353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:19 +0000
Subject: [PATCH 14/97] fix: adding a cost function twice registers its
 variables twice, so erase() leaves them behind

---
 theseus/core/objective.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/theseus/core/objective.py b/theseus/core/objective.py
index 7c4f74d..5914a41 100644
--- a/theseus/core/objective.py
+++ b/theseus/core/objective.py
@@ -248,6 +248,7 @@ class Objective:
                     "This cost function has already been added to the objective, "
                     "nothing to be done."
                 )
+                return
         else:
             self.cost_functions[cost_function.name] = cost_function
 
-- 
2.43.0


From 6d2fc3afd4e91b79d6700bd1e651188fdfdd33d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:19 +0000
Subject: [PATCH 15/97] fix: a vectorized objective ignores cost functions
 added or erased later

---
 theseus/core/objective.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/theseus/core/objective.py b/theseus/core/objective.py
index 5914a41..bb65172 100644
--- a/theseus/core/objective.py
+++ b/theseus/core/objective.py
@@ -253,6 +253,9 @@ class Objective:
             self.cost_functions[cost_function.name] = cost_function
 
         self.current_version += 1
+        if self.vectorized:
+            # The vectorization was made for the previous set of cost functions
+            self.disable_vectorization()
         # ----- Book-keeping for the cost function ------- #
         # adds information about the optimization variables in this cost function
         self._add_function_variables(cost_function, optim_vars=True)
@@ -428,6 +431,9 @@ class Objective:
         """
         self.current_version += 1
         if name in self.cost_functions:
+            if self.vectorized:
+                # The vectorization was made for the previous set of cost functions
+                self.disable_vectorization()
             cost_function = self.cost_functions[name]
             # erase variables associated to this cost function (if needed)
             self._erase_function_variables(cost_function, optim_vars=True)
-- 
2.43.0


From 03fb47b1fa3709cbcc2a620b659f0f76927ff864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:19 +0000
Subject: [PATCH 16/97] fix: Objective.error() of a vectorized objective is not
 in the order cost functions were added

---
 theseus/core/vectorizer.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/theseus/core/vectorizer.py b/theseus/core/vectorizer.py
index 880732e..93b765c 100644
--- a/theseus/core/vectorizer.py
+++ b/theseus/core/vectorizer.py
@@ -391,11 +391,16 @@ class Vectorize:
         else:
             # If not full vectorization, just copy the containers so that we don't override the
             # permanent cache. The results will be returned in these temp containers.
+            tmp_wrappers = {
+                id(cf): _CostFunctionWrapper(cf.cost_fn)
+                for cf in self._cost_fn_wrappers
+            }
             schema_dict = {
-                schema: [_CostFunctionWrapper(cf.cost_fn) for cf in cf_list]
+                schema: [tmp_wrappers[id(cf)] for cf in cf_list]
                 for schema, cf_list in self._schema_dict.items()
             }
-            ret = [cf for cf_list in schema_dict.values() for cf in cf_list]
+            # Keep the order in which the cost functions were added to the objective
+            ret = list(tmp_wrappers.values())
         for schema, cost_fn_wrappers in schema_dict.items():
             if len(cost_fn_wrappers) == 1:
                 self._handle_singleton_wrapper(schema, cost_fn_wrappers, mode)
-- 
2.43.0


From ac926d73bd0debd40a524c26bfb8f926c53b92ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:19 +0000
Subject: [PATCH 17/97] fix: vectorized retract fails when optimization
 variables have batch size 1

---
 theseus/core/vectorizer.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/theseus/core/vectorizer.py b/theseus/core/vectorizer.py
index 93b765c..9bff425 100644
--- a/theseus/core/vectorizer.py
+++ b/theseus/core/vectorizer.py
@@ -432,10 +432,8 @@ class Vectorize:
         # Create var info by looping variables in the given order
         # All variables of the same type get grouped together, and their deltas saved
         for var in ordering:
-            if batch_size == -1:
-                batch_size = var.shape[0]
-            else:
-                assert batch_size == var.shape[0]
+            # Some tensors may have batch size 1 (to be broadcasted)
+            batch_size = max(batch_size, var.shape[0], delta.shape[0])
 
             delta_slice = delta[:, start_idx : start_idx + var.dof()]
             start_idx += var.dof()
@@ -451,14 +449,28 @@ class Vectorize:
             # Get the vectorized tensor that holds all the current variable tensors.
             # The resulting shape is (N * b, M), b is batch size, N is the number of
             # variables in the group, and M is the data shape for this class
-            vectorized_tensor = torch.cat([v.tensor for v in var_list], dim=0)
+            vectorized_tensor = torch.cat(
+                [
+                    v.tensor
+                    if v.shape[0] == batch_size
+                    else Vectorize._expand(v.tensor, batch_size)
+                    for v in var_list
+                ],
+                dim=0,
+            )
             assert (
                 vectorized_tensor.shape
                 == (n_vars * batch_size,) + vectorized_tensor.shape[1:]
             )
             # delta_list is a list of N tensors of shape (b, d), where
             # d is var.dof(). After vectorization, we get tensor of shape (N * b, d)
-            vectorized_delta = torch.cat(delta_list, dim=0)
+            vectorized_delta = torch.cat(
+                [
+                    d if d.shape[0] == batch_size else d.expand(batch_size, -1)
+                    for d in delta_list
+                ],
+                dim=0,
+            )
             assert vectorized_delta.shape == (n_vars * batch_size, dof)
 
             # Retract the vectorized tensor, then redistribute to the variables
-- 
2.43.0


From df4e27a0524317b0f0589bfc46824a059437fbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:19 +0000
Subject: [PATCH 18/97] fix: masked jacobians fail when all the cost weights of
 a vectorized cost are zero

---
 theseus/core/cost_function.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/theseus/core/cost_function.py b/theseus/core/cost_function.py
index 29482aa..aa609f5 100644
--- a/theseus/core/cost_function.py
+++ b/theseus/core/cost_function.py
@@ -48,6 +48,8 @@ def masked_jacobians(
         for v in cost_fn.optim_vars
     ]
     err = aux_tensor.new_zeros(batch_size, cost_fn.dim())
+    if not mask.any():
+        return jacobians, err
     with masked_variables(cost_fn_vars, mask):
         masked_jacobians_, err[mask] = cost_fn.jacobians()
         for masked_jac, jac in zip(masked_jacobians_, jacobians):
-- 
2.43.0


From 7f23f599f3c27f87f9bb57f7fe342ff57b288682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:19 +0000
Subject: [PATCH 19/97] fix: copying an objective disconnects robust cost
 functions from shared variables

---
 theseus/core/robust_cost_function.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/theseus/core/robust_cost_function.py b/theseus/core/robust_cost_function.py
index 7fb7efc..cac0860 100644
--- a/theseus/core/robust_cost_function.py
+++ b/theseus/core/robust_cost_function.py
@@ -7,6 +7,8 @@ from typing import List, Optional, Tuple, Type
 
 import torch
 
+from theseus.geometry.manifold import Manifold
+
 from .cost_function import CostFunction
 from .cost_weight import CostWeight
 from .robust_loss import GNCRobustLoss, RobustLoss
@@ -133,6 +135,16 @@ class RobustCostFunction(CostFunction):
     def dim(self) -> int:
         return self.cost_function.dim()
 
+    # The underlying cost function shares its variables with this one
+    def set_optim_var_at(self, index: int, variable: Manifold):
+        super().set_optim_var_at(index, variable)
+        self.cost_function.set_optim_var_at(index, variable)
+
+    def set_aux_var_at(self, index: int, variable: Variable):
+        super().set_aux_var_at(index, variable)
+        if index < self.cost_function.num_aux_vars():
+            self.cost_function.set_aux_var_at(index, variable)
+
     def _copy_impl(self, new_name: Optional[str] = None) -> "RobustCostFunction":
         return RobustCostFunction(
             self.cost_function.copy(),
-- 
2.43.0


From e23bb0a4447850b133c849c4eac0a3b35eece248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:35 +0000
Subject: [PATCH 20/97] fix: Objective.error() fails when a cost function only
 uses variables with batch size 1

---
 theseus/core/objective.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/theseus/core/objective.py b/theseus/core/objective.py
index bb65172..b59ed6d 100644
--- a/theseus/core/objective.py
+++ b/theseus/core/objective.py
@@ -608,8 +608,12 @@ class Objective:
         # so we are currently avoiding this optimization. Optimizers also compute error
         # by passing `input_tensors`, so for optimizers the current version should be
         # good enough.
+        errors = [cf.weighted_error() for cf in self._get_error_iter()]
+        # Cost functions that only use variables with batch size 1 are broadcasted
+        batch_size = max((e.shape[0] for e in errors), default=1)
         error_vector = torch.cat(
-            [cf.weighted_error() for cf in self._get_error_iter()], dim=1
+            [e if e.shape[0] == batch_size else e.expand(batch_size, -1) for e in errors],
+            dim=1,
         )
 
         if input_tensors is not None and not also_update:
-- 
2.43.0


From 9ae404e9773f6e6731a4d9989fdc42dab764009c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:35 +0000
Subject: [PATCH 21/97] fix: vectorization rejects cost functions that use a
 variable twice

---
 theseus/core/vectorizer.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/theseus/core/vectorizer.py b/theseus/core/vectorizer.py
index 9bff425..706ad00 100644
--- a/theseus/core/vectorizer.py
+++ b/theseus/core/vectorizer.py
@@ -70,11 +70,20 @@ class _CostFunctionWrapper(CostFunction):
             name = f"wrapper({cost_fn.name})"
         super().__init__(cost_fn.weight, name=name)
         self.cost_fn = cost_fn
-        self.register_vars(cost_fn.optim_vars, is_optim_vars=True)
-        self.register_vars(cost_fn.aux_vars, is_optim_vars=False)
+        for i, var in enumerate(cost_fn.optim_vars):
+            self.register_optim_var(self._set_var_attr(var, f"_optim_var_{i}"))
+        for i, var in enumerate(cost_fn.aux_vars):
+            self.register_aux_var(self._set_var_attr(var, f"_aux_var_{i}"))
         self._cached_error: Optional[torch.Tensor] = None
         self._cached_jacobians: Optional[List[torch.Tensor]] = None
 
+    # The attribute is the variable's name, unless this name is already in use, because
+    # the cost function uses the variable more than once, or matches another attribute
+    def _set_var_attr(self, var: Variable, alternative: str) -> str:
+        attr = alternative if hasattr(self, var.name) else var.name
+        setattr(self, attr, var)
+        return attr
+
     def error(self) -> torch.Tensor:
         return self.cost_fn.error()
 
-- 
2.43.0


From 06b584049a36e894624ec886335d9b820036c529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:44 +0000
Subject: [PATCH 22/97] fix: assigning to a variable's items leaves a stale
 vectorization

---
 theseus/core/variable.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/theseus/core/variable.py b/theseus/core/variable.py
index 40e64f1..82d70a0 100644
--- a/theseus/core/variable.py
+++ b/theseus/core/variable.py
@@ -102,6 +102,7 @@ class Variable:
 
     def __setitem__(self, item, value):
         self.tensor[item] = value
+        self._num_updates += 1
 
 
 # If value is a variable, this returns the same variable
-- 
2.43.0


From b76921eed3ef74c374ccd2c70594e585d8180e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:00 +0000
Subject: [PATCH 23/97] fix: converting an objective's dtype or device leaves a
 stale vectorization

---
 theseus/core/variable.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/theseus/core/variable.py b/theseus/core/variable.py
index 82d70a0..9ce4b84 100644
--- a/theseus/core/variable.py
+++ b/theseus/core/variable.py
@@ -79,7 +79,10 @@ class Variable:
 
     # calls to() on the internal tensors
     def to(self, *args, **kwargs):
-        self.tensor = self.tensor.to(*args, **kwargs)
+        tensor = self.tensor.to(*args, **kwargs)
+        if tensor is not self.tensor:
+            self.tensor = tensor
+            self._num_updates += 1
 
     @property
     def shape(self) -> torch.Size:
-- 
2.43.0


From 3a7eae0206b467e6e55d1226f8cf2a4f108477df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:45 +0000
Subject: [PATCH 24/97] fix: copying an objective fails when a cost function
 and its weight share a variable

---
 theseus/core/objective.py | 33 +++++++++++----------------------
 1 file changed, 11 insertions(+), 22 deletions(-)

diff --git a/theseus/core/objective.py b/theseus/core/objective.py
index b59ed6d..7c43d08 100644
--- a/theseus/core/objective.py
+++ b/theseus/core/objective.py
@@ -682,30 +682,19 @@ class Objective:
             new_cost_function.weight = old_to_new_cost_weight_map[cost_function.weight]
             new_cost_functions.append(new_cost_function)
 
-        # Handle case where a variable is copied in 2+ cost functions or cost weights,
-        # since only a single copy should be maintained by objective
+        # Handle case where a variable is copied in 2+ cost functions or cost weights
+        # (or twice in one of them), since only a single copy should be maintained
+        # by objective
+        new_vars: Dict[str, Variable] = {}
         for cost_function in new_cost_functions:
-            # CostFunction
-            for i, var in enumerate(cost_function.optim_vars):
-                if new_objective.has_optim_var(var.name):
-                    cost_function.set_optim_var_at(
-                        i, new_objective.optim_vars[var.name]
+            for function in [cost_function, cost_function.weight]:
+                for i, var in enumerate(function.optim_vars):
+                    function.set_optim_var_at(
+                        i, new_vars.setdefault(var.name, var)  # type: ignore
                     )
-            for i, aux_var in enumerate(cost_function.aux_vars):
-                if new_objective.has_aux_var(aux_var.name):
-                    cost_function.set_aux_var_at(
-                        i, new_objective.aux_vars[aux_var.name]
-                    )
-            # CostWeight
-            for i, var in enumerate(cost_function.weight.optim_vars):
-                if var.name in new_objective.cost_weight_optim_vars:
-                    cost_function.weight.set_optim_var_at(
-                        i, new_objective.cost_weight_optim_vars[var.name]
-                    )
-            for i, aux_var in enumerate(cost_function.weight.aux_vars):
-                if new_objective.has_aux_var(aux_var.name):
-                    cost_function.weight.set_aux_var_at(
-                        i, new_objective.aux_vars[aux_var.name]
+                for i, aux_var in enumerate(function.aux_vars):
+                    function.set_aux_var_at(
+                        i, new_vars.setdefault(aux_var.name, aux_var)
                     )
             new_objective.add(cost_function)
         return new_objective
-- 
2.43.0


From f3b1750781f4e260a2a9553c884d806577d1a248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:37 +0000
Subject: [PATCH 25/97] fix: RobustCostFunction.to() ignores internal tensors
 of the underlying cost function

---
 theseus/core/robust_cost_function.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/theseus/core/robust_cost_function.py b/theseus/core/robust_cost_function.py
index cac0860..1a2f307 100644
--- a/theseus/core/robust_cost_function.py
+++ b/theseus/core/robust_cost_function.py
@@ -145,6 +145,11 @@ class RobustCostFunction(CostFunction):
         if index < self.cost_function.num_aux_vars():
             self.cost_function.set_aux_var_at(index, variable)
 
+    # The underlying cost function can have internal tensors of its own
+    def to(self, *args, **kwargs):
+        super().to(*args, **kwargs)
+        self.cost_function.to(*args, **kwargs)
+
     def _copy_impl(self, new_name: Optional[str] = None) -> "RobustCostFunction":
         return RobustCostFunction(
             self.cost_function.copy(),
-- 
2.43.0


From 391f90759476e002eb5e9ce742a73f347de1be71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:55 +0000
Subject: [PATCH 26/97] fix: an exception in a vmap error function leaves dead
 tensors in AutoDiffCostFunction

---
 theseus/core/cost_function.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/theseus/core/cost_function.py b/theseus/core/cost_function.py
index aa609f5..7b95150 100644
--- a/theseus/core/cost_function.py
+++ b/theseus/core/cost_function.py
@@ -185,9 +185,11 @@ class AutogradMode(Enum):
 @contextlib.contextmanager
 def _tmp_tensors(vars: Sequence[Variable]):
     tensors = [v.tensor for v in vars]
-    yield
-    for v, tensor in zip(vars, tensors):
-        v.update(tensor)
+    try:
+        yield
+    finally:
+        for v, tensor in zip(vars, tensors):
+            v.update(tensor)
 
 
 # The error function is assumed to receive variables in the format
-- 
2.43.0


From f386b9c26592460c4a4deb6487289cce074a2c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:09 +0000
Subject: [PATCH 27/97] fix: loop_batch and dense autograd modes don't
 broadcast variables with batch size 1

---
 theseus/core/cost_function.py | 41 ++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/theseus/core/cost_function.py b/theseus/core/cost_function.py
index 7b95150..558a715 100644
--- a/theseus/core/cost_function.py
+++ b/theseus/core/cost_function.py
@@ -319,20 +319,21 @@ class AutoDiffCostFunction(CostFunction):
 
         return jac_fn
 
+    @staticmethod
+    def _expand_all(
+        tensors: Tuple[torch.Tensor, ...], batch_size: int
+    ) -> Tuple[torch.Tensor, ...]:
+        return tuple(
+            t if t.shape[0] == batch_size else t.expand((batch_size,) + t.shape[1:])
+            for t in tensors
+        )
+
     def _compute_autograd_jacobian_vmap(
         self,
         optim_tensors: Tuple[torch.Tensor, ...],
         aux_tensors: Tuple[torch.Tensor, ...],
         jac_fn: Callable,
     ) -> Tuple[torch.Tensor, ...]:
-        def _expand_all(
-            tensors: Tuple[torch.Tensor, ...], batch_size: int
-        ) -> Tuple[torch.Tensor, ...]:
-            return tuple(
-                t if t.shape[0] == batch_size else t.expand((batch_size,) + t.shape[1:])
-                for t in tensors
-            )
-
         batch_sizes = set(t.shape[0] for t in chain(optim_tensors, aux_tensors))
         # Using an assert instead of exception because Objective already
         # takes care of throwing an appropriate error message if this happens
@@ -340,8 +341,8 @@ class AutoDiffCostFunction(CostFunction):
             len(batch_sizes) == 2 and min(batch_sizes) == 1
         )
         batch_size = max(batch_sizes)
-        optim_tensors = _expand_all(optim_tensors, batch_size)
-        aux_tensors = _expand_all(aux_tensors, batch_size)
+        optim_tensors = self._expand_all(optim_tensors, batch_size)
+        aux_tensors = self._expand_all(aux_tensors, batch_size)
         return vmap(jacrev(jac_fn, argnums=0))(optim_tensors, aux_tensors)
 
     def jacobians(self) -> Tuple[List[torch.Tensor], torch.Tensor]:
@@ -363,12 +364,19 @@ class AutoDiffCostFunction(CostFunction):
                 )
         elif self._autograd_mode == AutogradMode.LOOP_BATCH:
             jacobians_raw_loop: List[Tuple[torch.Tensor, ...]] = []
-            for n in range(optim_vars[0].shape[0]):
-                for i, aux_var in enumerate(aux_vars):
-                    self._tmp_aux_vars_for_loop[i].update(aux_var.tensor[n : n + 1])
+            batch_size = max(v.shape[0] for v in chain(optim_vars, aux_vars))
+            optim_tensors = self._expand_all(
+                tuple(v.tensor for v in optim_vars), batch_size
+            )
+            aux_tensors = self._expand_all(
+                tuple(v.tensor for v in aux_vars), batch_size
+            )
+            for n in range(batch_size):
+                for i, aux_tensor in enumerate(aux_tensors):
+                    self._tmp_aux_vars_for_loop[i].update(aux_tensor[n : n + 1])
 
                 jacobians_n = self._compute_autograd_jacobian(
-                    tuple(v.tensor[n : n + 1] for v in optim_vars),
+                    tuple(t[n : n + 1] for t in optim_tensors),
                     self._make_jac_fn(
                         self._tmp_optim_vars_for_loop, self._tmp_aux_vars_for_loop
                     ),
@@ -384,7 +392,10 @@ class AutoDiffCostFunction(CostFunction):
             )
         else:
             jacobians_raw = self._compute_autograd_jacobian(
-                tuple(v.tensor for v in optim_vars),
+                self._expand_all(
+                    tuple(v.tensor for v in optim_vars),
+                    max(v.shape[0] for v in chain(optim_vars, aux_vars)),
+                ),
                 self._make_jac_fn(self._tmp_optim_vars, aux_vars),
             )
             aux_idx = torch.arange(err.shape[0])  # batch_size
-- 
2.43.0


From 339eda4073be76603602b8027acc9b0e705eb0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:09 +0000
Subject: [PATCH 28/97] fix: copies of AutoDiffCostFunction lose its autograd
 options

---
 theseus/core/cost_function.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/theseus/core/cost_function.py b/theseus/core/cost_function.py
index 558a715..64f435b 100644
--- a/theseus/core/cost_function.py
+++ b/theseus/core/cost_function.py
@@ -418,6 +418,10 @@ class AutoDiffCostFunction(CostFunction):
             aux_vars=[v.copy() for v in self.aux_vars],
             cost_weight=self.weight.copy(),
             name=new_name,
+            autograd_create_graph=self._autograd_create_graph,
+            autograd_strict=self._autograd_strict,
+            autograd_vectorize=self._autograd_vectorize,
+            autograd_strategy=self._autograd_strategy,
             autograd_mode=self._autograd_mode,
         )
 
-- 
2.43.0


From 5f05281e1b6eabcf0e255939780fbf39b4484397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:34 +0000
Subject: [PATCH 29/97] fix: SE3.update_from_rot_and_trans() leaves a stale
 vectorization

---
 theseus/geometry/se3.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/theseus/geometry/se3.py b/theseus/geometry/se3.py
index a212b13..bded3e7 100644
--- a/theseus/geometry/se3.py
+++ b/theseus/geometry/se3.py
@@ -211,6 +211,7 @@ class SE3(LieGroup):
         self.tensor = torch.cat(
             (rotation.tensor, translation.tensor.unsqueeze(2)), dim=2
         )
+        self._num_updates += 1
 
     @staticmethod
     def hat(tangent_vector: torch.Tensor) -> torch.Tensor:
-- 
2.43.0


From e8fc26b3e0e9e88dd0a42f6f3f5500e4dc7c5c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:54 +0000
Subject: [PATCH 30/97] fix: Objective.error() keeps temporary tensors when the
 evaluation raises

---
 theseus/core/objective.py | 55 ++++++++++++++++++++++-----------------
 1 file changed, 31 insertions(+), 24 deletions(-)

diff --git a/theseus/core/objective.py b/theseus/core/objective.py
index 7c43d08..82c8e18 100644
--- a/theseus/core/objective.py
+++ b/theseus/core/objective.py
@@ -597,31 +597,38 @@ class Objective:
                 for name in input_tensors:
                     if name in self._all_variables:
                         old_tensors[name] = self._all_variables[name].tensor
-            # Update vectorization only if the input tensors will be used for a
-            # persistent update.
-            self.update(input_tensors=input_tensors, _update_vectorization=also_update)
-
-        # Current behavior when vectorization is on, is to always compute the error.
-        # One could potentially optimize by only recompute when `input_tensors`` is
-        # not None, and serving from the jacobians cache. However, when robust cost
-        # functions are present this results in incorrect rescaling of error terms
-        # so we are currently avoiding this optimization. Optimizers also compute error
-        # by passing `input_tensors`, so for optimizers the current version should be
-        # good enough.
-        errors = [cf.weighted_error() for cf in self._get_error_iter()]
-        # Cost functions that only use variables with batch size 1 are broadcasted
-        batch_size = max((e.shape[0] for e in errors), default=1)
-        error_vector = torch.cat(
-            [e if e.shape[0] == batch_size else e.expand(batch_size, -1) for e in errors],
-            dim=1,
-        )
+        try:
+            if input_tensors is not None:
+                # Update vectorization only if the input tensors will be used for a
+                # persistent update.
+                self.update(
+                    input_tensors=input_tensors, _update_vectorization=also_update
+                )
 
-        if input_tensors is not None and not also_update:
-            # This line reverts back to the old tensors if a persistent update wasn't
-            # required (i.e., `also_update is False`).
-            # In this case, we pass _update_vectorization=False because
-            # vectorization wasn't updated in the first call to `update()`.
-            self.update(old_tensors, _update_vectorization=False)
+            # Current behavior when vectorization is on, is to always compute the
+            # error. One could potentially optimize by only recompute when
+            # `input_tensors`` is not None, and serving from the jacobians cache.
+            # However, when robust cost functions are present this results in
+            # incorrect rescaling of error terms so we are currently avoiding this
+            # optimization. Optimizers also compute error by passing `input_tensors`,
+            # so for optimizers the current version should be good enough.
+            errors = [cf.weighted_error() for cf in self._get_error_iter()]
+            # Cost functions that only use variables with batch size 1 are broadcasted
+            batch_size = max((e.shape[0] for e in errors), default=1)
+            error_vector = torch.cat(
+                [
+                    e if e.shape[0] == batch_size else e.expand(batch_size, -1)
+                    for e in errors
+                ],
+                dim=1,
+            )
+        finally:
+            if input_tensors is not None and not also_update:
+                # This line reverts back to the old tensors if a persistent update
+                # wasn't required (i.e., `also_update is False`).
+                # In this case, we pass _update_vectorization=False because
+                # vectorization wasn't updated in the first call to `update()`.
+                self.update(old_tensors, _update_vectorization=False)
         return error_vector
 
     def error_metric(
-- 
2.43.0


From 67bb23e02c78b556e88efc242ad584e5a080d656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:32 +0000
Subject: [PATCH 31/97] fix: using a variable in both roles raises KeyError
 instead of ValueError

---
 theseus/core/objective.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/theseus/core/objective.py b/theseus/core/objective.py
index 82c8e18..7cd2b00 100644
--- a/theseus/core/objective.py
+++ b/theseus/core/objective.py
@@ -63,6 +63,11 @@ class Objective:
             will all cost function errors concatenated.
     """
 
+    _DUAL_VAR_ERR_MSG = (
+        "Objective does not support a variable being both "
+        "an optimization variable and an auxiliary variable."
+    )
+
     def __init__(
         self,
         dtype: Optional[torch.dtype] = None,
@@ -201,7 +206,9 @@ class Objective:
             # self.cost_weight_optim_vars or self.aux_vars
             self_vars_of_this_type[variable.name] = variable
 
-            if self._allow_mixed_optim_aux_vars and variable not in self_var_to_fn_map:
+            if variable not in self_var_to_fn_map:
+                if not self._allow_mixed_optim_aux_vars:
+                    raise ValueError(Objective._DUAL_VAR_ERR_MSG)
                 self_var_to_fn_map[variable] = []
 
             # add to list of functions connected to this variable
@@ -302,16 +309,12 @@ class Objective:
             )
         ]
         if not self._allow_mixed_optim_aux_vars:
-            dual_var_err_msg = (
-                "Objective does not support a variable being both "
-                + "an optimization variable and an auxiliary variable."
-            )
             for optim_name in optim_vars_names:
                 if self.has_aux_var(optim_name):
-                    raise ValueError(dual_var_err_msg)
+                    raise ValueError(Objective._DUAL_VAR_ERR_MSG)
             for aux_name in aux_vars_names:
                 if self.has_optim_var(aux_name):
-                    raise ValueError(dual_var_err_msg)
+                    raise ValueError(Objective._DUAL_VAR_ERR_MSG)
 
     def get_cost_function(self, name: str) -> CostFunction:
         """Returns a reference to the cost function with the given name.
-- 
2.43.0


From 6f66ed3cac18968ab4b16904b7d03ad07e576d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:50 +0000
Subject: [PATCH 32/97] fix: default calibration variables of two Reprojection
 costs collide, and fix the batch size

---
 theseus/embodied/measurements/reprojection.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/theseus/embodied/measurements/reprojection.py b/theseus/embodied/measurements/reprojection.py
index 2e7cef9..f2532ab 100644
--- a/theseus/embodied/measurements/reprojection.py
+++ b/theseus/embodied/measurements/reprojection.py
@@ -32,16 +32,15 @@ class Reprojection(th.CostFunction):
         self.focal_length = focal_length
         self.calib_k1 = calib_k1
         self.calib_k2 = calib_k2
-        batch_size = self.camera_pose.shape[0]
         if self.calib_k1 is None:
             self.calib_k1 = th.Vector(
-                tensor=torch.zeros((batch_size, 1), dtype=camera_pose.dtype),
-                name="calib_k1",
+                tensor=torch.zeros((1, 1), dtype=camera_pose.dtype),
+                name=f"{self.name}__calib_k1",
             )
         if self.calib_k2 is None:
             self.calib_k2 = th.Vector(
-                tensor=torch.zeros((batch_size, 1), dtype=camera_pose.dtype),
-                name="calib_k2",
+                tensor=torch.zeros((1, 1), dtype=camera_pose.dtype),
+                name=f"{self.name}__calib_k2",
             )
         self.world_point = world_point
         self.image_feature_point = image_feature_point
-- 
2.43.0


From 4a092f4ec5b6ee12ce9c490325c76cbebb2e269f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:50 +0000
Subject: [PATCH 33/97] fix: copies of GPMotionModel are DoubleIntegrator
 objects

---
 theseus/embodied/motionmodel/double_integrator.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/theseus/embodied/motionmodel/double_integrator.py b/theseus/embodied/motionmodel/double_integrator.py
index 4bedf30..702770f 100644
--- a/theseus/embodied/motionmodel/double_integrator.py
+++ b/theseus/embodied/motionmodel/double_integrator.py
@@ -200,4 +200,12 @@ class GPMotionModel(DoubleIntegrator):
         super().__init__(pose1, vel1, pose2, vel2, dt, cost_weight, name=name)
 
     def _copy_impl(self, new_name: Optional[str] = None) -> "GPMotionModel":
-        return cast(GPMotionModel, super()._copy_impl(new_name=new_name))
+        return GPMotionModel(
+            self.pose1.copy(),
+            self.vel1.copy(),
+            self.pose2.copy(),
+            self.vel2.copy(),
+            self.dt.copy(),
+            cast(GPCostWeight, self.weight.copy()),
+            name=new_name,
+        )
-- 
2.43.0


From b963d237b72cfab41d37d993662bd9d342dc6f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:44 +0000
Subject: [PATCH 34/97] fix: fast approximate local jacobians keep the dtype
 and device of the first call

---
 theseus/embodied/misc/local_cost_fn.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/theseus/embodied/misc/local_cost_fn.py b/theseus/embodied/misc/local_cost_fn.py
index c64666a..ff53e8c 100644
--- a/theseus/embodied/misc/local_cost_fn.py
+++ b/theseus/embodied/misc/local_cost_fn.py
@@ -44,6 +44,8 @@ class Local(CostFunction):
             if (
                 self._jac_cache is not None
                 and self._jac_cache.shape[0] == self.var.shape[0]
+                and self._jac_cache.dtype == self.var.dtype
+                and self._jac_cache.device == self.var.device
             ):
                 jacobian = self._jac_cache
             else:
-- 
2.43.0


From ce997051494d7aa839736e360995cac5ea7a5364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:50 +0000
Subject: [PATCH 35/97] fix: gradient of HingeLoss is NaN for zero residuals

---
 theseus/core/robust_loss.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/theseus/core/robust_loss.py b/theseus/core/robust_loss.py
index 698c4cd..bc4aa3d 100644
--- a/theseus/core/robust_loss.py
+++ b/theseus/core/robust_loss.py
@@ -55,11 +55,14 @@ class HuberLoss(RobustLoss):
 class HingeLoss(RobustLoss):
     @staticmethod
     def _evaluate_impl(x: torch.Tensor, radius: torch.Tensor) -> torch.Tensor:
-        return torch.where(x > radius, torch.sqrt(x) - torch.sqrt(radius), _LOSS_EPS)
+        # clamping x keeps the gradient of the unselected values finite at x = 0
+        sqrt_x = torch.sqrt(torch.max(x, radius))
+        return torch.where(x > radius, sqrt_x - torch.sqrt(radius), _LOSS_EPS)
 
     @staticmethod
     def _linearize_impl(x: torch.Tensor, radius: torch.Tensor) -> torch.Tensor:
-        return torch.where(x > radius, 1.0 / (2 * torch.sqrt(x) + _LOSS_EPS), 0.0)
+        sqrt_x = torch.sqrt(torch.max(x, radius))
+        return torch.where(x > radius, 1.0 / (2 * sqrt_x + _LOSS_EPS), 0.0)
 
 
 class GNCRobustLoss(RobustLoss, abc.ABC):
-- 
2.43.0


From 8c7c0837a9ab6044ec0fcc56f4a3563c84db081d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:18 +0000
Subject: [PATCH 36/97] fix: nonlinear optimizers fail after converting the
 objective's dtype or device

---
 theseus/optimizer/nonlinear/nonlinear_least_squares.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/theseus/optimizer/nonlinear/nonlinear_least_squares.py b/theseus/optimizer/nonlinear/nonlinear_least_squares.py
index a823f4a..ccf8186 100644
--- a/theseus/optimizer/nonlinear/nonlinear_least_squares.py
+++ b/theseus/optimizer/nonlinear/nonlinear_least_squares.py
@@ -303,6 +303,9 @@ class NonlinearLeastSquares(NonlinearOptimizer, abc.ABC):
     # in the objective.
     def _update_tmp_optim_vars(self):
         for v_tmp, v_order in zip(self._tmp_optim_vars, self.ordering):
+            if v_tmp.dtype != v_order.dtype or v_tmp.device != v_order.device:
+                # the objective was converted with to() after construction
+                v_tmp.to(device=v_order.device, dtype=v_order.dtype)
             v_tmp.update(v_order.tensor)
 
     def _compute_retracted_tensors_and_error(
-- 
2.43.0


From 8fe374d4906ded628e29e0cdf89bef156bda19fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:18 +0000
Subject: [PATCH 37/97] fix: DLM backward fails after converting the layer's
 dtype or device

---
 theseus/theseus_layer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/theseus/theseus_layer.py b/theseus/theseus_layer.py
index 814f0a2..94c0a65 100644
--- a/theseus/theseus_layer.py
+++ b/theseus/theseus_layer.py
@@ -138,6 +138,9 @@ class TheseusLayer(nn.Module):
     def to(self, *args, **kwargs) -> "TheseusLayer":
         super().to(*args, **kwargs)
         self.objective.to(*args, **kwargs)
+        # these hold copies of the tensors before conversion
+        self._dlm_bwd_objective = None
+        self._dlm_bwd_optimizer = None
         return self
 
     @property
-- 
2.43.0


From 8e390e857a8adcf8665398e30d229f8b2f09b36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:18 +0000
Subject: [PATCH 38/97] fix: check_singular only works for float32 and scalar
 damping

---
 theseus/optimizer/linear/dense_solver.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/theseus/optimizer/linear/dense_solver.py b/theseus/optimizer/linear/dense_solver.py
index e5e58e5..49c48ea 100644
--- a/theseus/optimizer/linear/dense_solver.py
+++ b/theseus/optimizer/linear/dense_solver.py
@@ -92,7 +92,7 @@ class DenseSolver(LinearSolver, abc.ABC):
             AtA = self.linearization.AtA
             Atb = self.linearization.Atb
             with torch.no_grad():
-                output = torch.zeros(AtA.shape[0], AtA.shape[1]).to(AtA.device)
+                output = torch.zeros_like(Atb.squeeze(2))
                 _, _, infos = torch.lu(AtA, get_infos=True)
                 good_idx = infos.bool().logical_not()
                 if not good_idx.all():
@@ -103,6 +103,8 @@ class DenseSolver(LinearSolver, abc.ABC):
                     )
             AtA = AtA[good_idx]
             Atb = Atb[good_idx]
+            if isinstance(damping, torch.Tensor) and damping.numel() > 1:
+                damping = damping[good_idx]
             solution = self._apply_damping_and_solve(
                 Atb,
                 AtA,
-- 
2.43.0


From 00ff2390f5c9a52f746e990375a0842f525abf56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:18 +0000
Subject: [PATCH 39/97] fix: the CHOLMOD solver truncates float64 solutions and
 gradients to float32

---
 theseus/optimizer/autograd/cholmod_sparse_autograd.py | 10 +++++-----
 theseus/optimizer/autograd/common.py                  |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/theseus/optimizer/autograd/cholmod_sparse_autograd.py b/theseus/optimizer/autograd/cholmod_sparse_autograd.py
index 9c575df..2c5800a 100644
--- a/theseus/optimizer/autograd/cholmod_sparse_autograd.py
+++ b/theseus/optimizer/autograd/cholmod_sparse_autograd.py
@@ -48,7 +48,7 @@ class CholmodSolveFunction(torch.autograd.Function):
 
             # solve
             Atb_i = At_i @ b_cpu[i, :]
-            x_cpu[i, :] = torch.Tensor(cholesky_decomposition(Atb_i))
+            x_cpu[i, :] = torch.as_tensor(cholesky_decomposition(Atb_i))
             cholesky_decompositions.append(cholesky_decomposition)
 
         ctx.b_cpu = b_cpu
@@ -118,13 +118,13 @@ class CholmodSolveFunction(torch.autograd.Function):
         grad_output_cpu = grad_output.cpu()
 
         for i in range(batch_size):
-            H[i, :] = torch.Tensor(
-                ctx.cholesky_decompositions[i](grad_output_cpu[i, :])
+            H[i, :] = torch.as_tensor(
+                ctx.cholesky_decompositions[i](grad_output_cpu[i, :].double())
             )
 
             A_i = ctx.sparse_structure.csr_straight(ctx.At_val_cpu[i, :])
-            AH[i, :] = torch.Tensor(A_i @ H[i, :])
-            b_Ax[i, :] -= torch.Tensor(A_i @ ctx.x_cpu[i, :])
+            AH[i, :] = torch.as_tensor(A_i @ H[i, :])
+            b_Ax[i, :] -= torch.as_tensor(A_i @ ctx.x_cpu[i, :])
 
         # now we fill values of a matrix with structure identical to A with
         # selected entries from the difference of tensor products:
diff --git a/theseus/optimizer/autograd/common.py b/theseus/optimizer/autograd/common.py
index c75b203..95bceb2 100644
--- a/theseus/optimizer/autograd/common.py
+++ b/theseus/optimizer/autograd/common.py
@@ -23,7 +23,7 @@ def compute_A_grad(
     detach_hessian: bool,
 ):
     A_grad = torch.empty(
-        size=(batch_size, len(A_col_ind)), device=x.device
+        size=(batch_size, len(A_col_ind)), device=x.device, dtype=x.dtype
     )  # return value, A's grad
     for r in range(len(A_row_ptr) - 1):
         start, end = A_row_ptr[r], A_row_ptr[r + 1]
-- 
2.43.0


From bf106a75fef5399feb58bfc1217a82edeeb6938d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:54 +0000
Subject: [PATCH 40/97] fix: compute_samples() only works for float32

---
 theseus/theseus_layer.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/theseus/theseus_layer.py b/theseus/theseus_layer.py
index 94c0a65..7d3dc72 100644
--- a/theseus/theseus_layer.py
+++ b/theseus/theseus_layer.py
@@ -115,14 +115,18 @@ class TheseusLayer(nn.Module):
 
         batch_size, n_vars = delta.shape
         y = torch.normal(
-            mean=torch.zeros((n_vars, n_samples), device=delta.device),
-            std=torch.ones((n_vars, n_samples), device=delta.device),
+            mean=torch.zeros(
+                (n_vars, n_samples), device=delta.device, dtype=delta.dtype
+            ),
+            std=torch.ones((n_vars, n_samples), device=delta.device, dtype=delta.dtype),
         )
         delta_samples = (torch.linalg.solve_triangular(sqrt_AtA, y, upper=True)) + (
             delta.unsqueeze(-1)
         ).repeat(1, 1, n_samples)
 
-        x_samples = torch.zeros((batch_size, n_vars, n_samples), device=delta.device)
+        x_samples = torch.zeros(
+            (batch_size, n_vars, n_samples), device=delta.device, dtype=delta.dtype
+        )
         for sidx in range(0, n_samples):
             var_idx = 0
             for var in linear_solver.linearization.ordering:
-- 
2.43.0


From 46f68b19b5b4d95aff1c8b713682d74b9dee9784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:16 +0000
Subject: [PATCH 41/97] fix: linearization is wrong when a cost function uses
 an optimization variable twice

---
 theseus/optimizer/dense_linearization.py  |  3 ++-
 theseus/optimizer/sparse_linearization.py | 28 ++++++++++++-----------
 2 files changed, 17 insertions(+), 14 deletions(-)

diff --git a/theseus/optimizer/dense_linearization.py b/theseus/optimizer/dense_linearization.py
index 33caada..0efec84 100644
--- a/theseus/optimizer/dense_linearization.py
+++ b/theseus/optimizer/dense_linearization.py
@@ -50,7 +50,8 @@ class DenseLinearization(Linearization):
                 num_cols = var_jacobian.shape[2]
                 row_slice = slice(err_row_idx, err_row_idx + num_rows)
                 col_slice = slice(var_start_col, var_start_col + num_cols)
-                self.A[:, row_slice, col_slice] = var_jacobian
+                # accumulate, since a cost function may use a variable more than once
+                self.A[:, row_slice, col_slice] += var_jacobian
 
             self.b[:, row_slice] = -error
             err_row_idx += cost_function.dim()
diff --git a/theseus/optimizer/sparse_linearization.py b/theseus/optimizer/sparse_linearization.py
index 021d434..0cf74d1 100644
--- a/theseus/optimizer/sparse_linearization.py
+++ b/theseus/optimizer/sparse_linearization.py
@@ -3,7 +3,7 @@
 # This source code is licensed under the MIT license found in the
 # LICENSE file in the root directory of this source tree.
 
-from typing import List, Optional
+from typing import Dict, List, Optional
 
 import numpy as np
 import torch
@@ -53,19 +53,20 @@ class SparseLinearization(Linearization):
                 col_slice = slice(var_start_col, var_start_col + num_cols)
                 col_slices_indices.append((col_slice, var_idx_in_cost_function))
 
-            # sort according to how they will be written inside A
-            col_slices_indices.sort()
-            sorted_block_sizes = [(s.stop - s.start) for s, _ in col_slices_indices]
-            sorted_block_pointers = np.cumsum([0] + sorted_block_sizes)[:-1]
-            sorted_indices = np.array([i for _, i in col_slices_indices])
-            block_pointers: np.ndarray = np.ndarray(
-                (len(col_slices_indices),), dtype=int
+            # sort according to how they will be written inside A; if a variable is
+            # used more than once, all its jacobians go to the same block
+            block_starts: Dict[int, int] = {}
+            col_ind: List[int] = []
+            for s, _ in sorted(col_slices_indices, key=lambda x: x[0].start):
+                if s.start not in block_starts:
+                    block_starts[s.start] = len(col_ind)
+                    col_ind += range(s.start, s.stop)
+            block_pointers: np.ndarray = np.array(
+                [block_starts[s.start] for s, _ in col_slices_indices], dtype=int
             )
-            block_pointers[sorted_indices] = sorted_block_pointers
             cost_function_block_pointers.append(block_pointers)
 
             cost_function_row_block_starts.append(len(A_col_ind))
-            col_ind = [c for s, _ in col_slices_indices for c in range(s.start, s.stop)]
             cost_function_stride.append(len(col_ind))
 
             for _ in range(num_rows):
@@ -104,12 +105,13 @@ class SparseLinearization(Linearization):
         self._Atb = None
         self._AtA_diag = None
 
-        # those will be fully overwritten, no need to zero:
-        self.A_val = torch.empty(
+        # jacobians are accumulated, since a variable can be used more than once
+        self.A_val = torch.zeros(
             size=(self.objective.batch_size, len(self.A_col_ind)),
             device=self.objective.device,
             dtype=self.objective.dtype,
         )
+        # this will be fully overwritten, no need to zero:
         self.b = torch.empty(
             size=(self.objective.batch_size, self.num_rows),
             device=self.objective.device,
@@ -134,7 +136,7 @@ class SparseLinearization(Linearization):
                 # the proper block is written, using the precomputed index in `block_pointers`
                 num_cols = var_jacobian.shape[2]
                 pointer = block_pointers[var_idx_in_cost_function]
-                block[:, :, pointer : pointer + num_cols] = var_jacobian
+                block[:, :, pointer : pointer + num_cols] += var_jacobian
 
             self.b[:, row_slice] = -error
             err_row_idx += cost_function.dim()
-- 
2.43.0


From 006d4ee414776f70ce783e901df9dbdc484cf71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:16 +0000
Subject: [PATCH 42/97] fix: SparseLinearization.diagonal_scaling() computes in
 float32

---
 theseus/optimizer/sparse_linearization.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/theseus/optimizer/sparse_linearization.py b/theseus/optimizer/sparse_linearization.py
index 0cf74d1..07b4886 100644
--- a/theseus/optimizer/sparse_linearization.py
+++ b/theseus/optimizer/sparse_linearization.py
@@ -191,7 +191,12 @@ class SparseLinearization(Linearization):
         assert v.shape[1] == self.num_cols
         if self._AtA_diag is None:
             A_val = self.A_val
-            self._AtA_diag = torch.zeros(A_val.shape[0], self.num_cols)
+            self._AtA_diag = torch.zeros(
+                A_val.shape[0],
+                self.num_cols,
+                device=A_val.device,
+                dtype=A_val.dtype,
+            )
             for row in range(self.num_rows):
                 start = self.A_row_ptr[row]
                 end = self.A_row_ptr[row + 1]
-- 
2.43.0


From 5d63edb4a45c641e6a5a7fe28e82a56f539237e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:16 +0000
Subject: [PATCH 43/97] fix: removing a variable from an ordering leaves stale
 indices

---
 theseus/optimizer/variable_ordering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theseus/optimizer/variable_ordering.py b/theseus/optimizer/variable_ordering.py
index 5156dcd..4b2dd45 100644
--- a/theseus/optimizer/variable_ordering.py
+++ b/theseus/optimizer/variable_ordering.py
@@ -49,7 +49,7 @@ class VariableOrdering:
 
     def remove(self, var: Variable):
         self._var_order.remove(var)
-        del self._var_name_to_index[var.name]
+        self._var_name_to_index = {v.name: i for i, v in enumerate(self._var_order)}
 
     def extend(self, variables: Sequence[Variable]):
         for var in variables:
-- 
2.43.0


From ef8e1edc8b5a6e88d1c6c1425f892804aa89a94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:16 +0000
Subject: [PATCH 44/97] fix: error and state histories are truncated to float32

---
 theseus/optimizer/nonlinear/nonlinear_optimizer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/theseus/optimizer/nonlinear/nonlinear_optimizer.py b/theseus/optimizer/nonlinear/nonlinear_optimizer.py
index 755421f..e7443d6 100644
--- a/theseus/optimizer/nonlinear/nonlinear_optimizer.py
+++ b/theseus/optimizer/nonlinear/nonlinear_optimizer.py
@@ -139,7 +139,11 @@ class NonlinearOptimizer(Optimizer, abc.ABC):
         best_err = last_err.clone() if track_best_solution else None
         if track_err_history:
             err_history = (
-                torch.ones(self.objective.batch_size, self.params.max_iterations + 1)
+                torch.ones(
+                    self.objective.batch_size,
+                    self.params.max_iterations + 1,
+                    dtype=last_err.dtype,
+                )
                 * math.inf
             )
             assert last_err.grad_fn is None
@@ -155,6 +159,7 @@ class NonlinearOptimizer(Optimizer, abc.ABC):
                         self.objective.batch_size,
                         *var.shape[1:],
                         self.params.max_iterations + 1,
+                        dtype=var.dtype,
                     )
                     * math.inf
                 )
-- 
2.43.0


From b064c747632418e78a7261c8aed31131c1ddc620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:16 +0000
Subject: [PATCH 45/97] fix: the last iteration before convergence is missing
 from the optimizer info

---
 theseus/optimizer/nonlinear/nonlinear_least_squares.py | 4 ++--
 theseus/optimizer/nonlinear/nonlinear_optimizer.py     | 8 +++++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/theseus/optimizer/nonlinear/nonlinear_least_squares.py b/theseus/optimizer/nonlinear/nonlinear_least_squares.py
index ccf8186..d52a7a6 100644
--- a/theseus/optimizer/nonlinear/nonlinear_least_squares.py
+++ b/theseus/optimizer/nonlinear/nonlinear_least_squares.py
@@ -199,8 +199,6 @@ class NonlinearLeastSquares(NonlinearOptimizer, abc.ABC):
                 info.status[
                     converged_indices.cpu().numpy()
                 ] = NonlinearOptimizerStatus.CONVERGED
-                if converged_indices.all():
-                    break  # nothing else will happen at this point
                 info.last_err = err
 
                 if end_iter_callback is not None:
@@ -208,6 +206,8 @@ class NonlinearLeastSquares(NonlinearOptimizer, abc.ABC):
 
             iters_done += 1
             it_ += 1
+            if converged_indices.all():
+                break  # nothing else will happen at this point
 
         info.status[
             info.status == NonlinearOptimizerStatus.START
diff --git a/theseus/optimizer/nonlinear/nonlinear_optimizer.py b/theseus/optimizer/nonlinear/nonlinear_optimizer.py
index e7443d6..f769a55 100644
--- a/theseus/optimizer/nonlinear/nonlinear_optimizer.py
+++ b/theseus/optimizer/nonlinear/nonlinear_optimizer.py
@@ -247,7 +247,7 @@ class NonlinearOptimizer(Optimizer, abc.ABC):
             best_solution = {}
             best_err_no_grad = info.best_err
             best_err_grad = grad_loop_info.best_err
-            idx_no_grad = (best_err_no_grad < best_err_grad).cpu()
+            idx_no_grad = (best_err_no_grad <= best_err_grad).cpu()
             best_err = torch.minimum(best_err_no_grad, best_err_grad)
             for var_name in info.best_solution:
                 sol_no_grad = info.best_solution[var_name]
@@ -259,6 +259,12 @@ class NonlinearOptimizer(Optimizer, abc.ABC):
                 )
             info.best_solution = best_solution
             info.best_err = best_err
+            info.best_iter = torch.where(
+                best_err_no_grad <= best_err_grad,
+                info.best_iter,
+                grad_loop_info.best_iter + num_no_grad_iters,
+            )
+        info.last_err = grad_loop_info.last_err
 
         # Merge the converged status into the info from the detached loop,
         M = info.status == NonlinearOptimizerStatus.MAX_ITERATIONS
-- 
2.43.0


From fdd19318b316ca1cbbf55142b7a33822e2179d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:16 +0000
Subject: [PATCH 46/97] fix: TheseusLayer.forward() modifies the
 optimizer_kwargs given

---
 theseus/theseus_layer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theseus/theseus_layer.py b/theseus/theseus_layer.py
index 7d3dc72..e880afd 100644
--- a/theseus/theseus_layer.py
+++ b/theseus/theseus_layer.py
@@ -175,7 +175,7 @@ def _forward(
     input_tensors: Dict[str, torch.Tensor],
 ):
     objective.update(input_tensors)
-    optimizer_kwargs[__FROM_THESEUS_LAYER_TOKEN__] = True
+    optimizer_kwargs = {**optimizer_kwargs, __FROM_THESEUS_LAYER_TOKEN__: True}
     info = optimizer.optimize(**optimizer_kwargs)
     vars = [var.tensor for var in objective.optim_vars.values()]
     return vars, info
-- 
2.43.0


From 605f6f1d8a5bb8f8dde3d6fddbe7f8584be735d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:18 +0000
Subject: [PATCH 47/97] fix: DLM backward uses stale values of auxiliary
 variables not in the input

---
 theseus/theseus_layer.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/theseus/theseus_layer.py b/theseus/theseus_layer.py
index e880afd..ca4869e 100644
--- a/theseus/theseus_layer.py
+++ b/theseus/theseus_layer.py
@@ -73,6 +73,13 @@ class TheseusLayer(nn.Module):
                 self._dlm_bwd_objective = _obj
                 self._dlm_bwd_optimizer = _opt
 
+            # The backward objective is a copy, so it also needs the current values of
+            # any auxiliary variables that are not part of the input.
+            input_tensors = {
+                **{k: v.tensor for k, v in self.objective.aux_vars.items()},
+                **(input_tensors or {}),
+            }
+
             # Tensors cannot be passed inside containers, else we run into memory leaks.
             input_keys, input_vals = zip(*input_tensors.items())
             differentiable_tensors = [t for t in input_vals if t.requires_grad]
-- 
2.43.0


From 7e7e3dc4ac57a1082d43bb10eccd72a7ac1ad764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:18 +0000
Subject: [PATCH 48/97] fix: track_best_solution fails for variables with batch
 size 1

---
 theseus/optimizer/nonlinear/nonlinear_optimizer.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/theseus/optimizer/nonlinear/nonlinear_optimizer.py b/theseus/optimizer/nonlinear/nonlinear_optimizer.py
index f769a55..dd7c54b 100644
--- a/theseus/optimizer/nonlinear/nonlinear_optimizer.py
+++ b/theseus/optimizer/nonlinear/nonlinear_optimizer.py
@@ -125,7 +125,13 @@ class NonlinearOptimizer(Optimizer, abc.ABC):
             return None
         solution_dict = {}
         for var in self.objective.optim_vars.values():
-            solution_dict[var.name] = var.tensor.detach().clone().cpu()
+            # variables with batch size 1 are expanded by the first update
+            solution_dict[var.name] = (
+                var.tensor.detach()
+                .expand(self.objective.batch_size, *var.shape[1:])
+                .clone()
+                .cpu()
+            )
         return solution_dict
 
     def _init_info(
-- 
2.43.0


From 61785f453124ef60142ee06dea49720e934a5203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:18 +0000
Subject: [PATCH 49/97] fix: the last iteration before convergence is missing
 from DCEM's info

---
 theseus/optimizer/nonlinear/dcem.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/theseus/optimizer/nonlinear/dcem.py b/theseus/optimizer/nonlinear/dcem.py
index abce1e6..042151a 100644
--- a/theseus/optimizer/nonlinear/dcem.py
+++ b/theseus/optimizer/nonlinear/dcem.py
@@ -190,13 +190,14 @@ class DCEM(NonlinearOptimizer):
                     np.array(converged_indices.cpu().numpy())
                 ] = NonlinearOptimizerStatus.CONVERGED
 
-                if converged_indices.all():
-                    break  # nothing else will happen at this point
                 info.last_err = err
 
                 if end_iter_callback is not None:
                     end_iter_callback(self, info, mu, it_)
 
+                if converged_indices.all():
+                    break  # nothing else will happen at this point
+
         info.status[
             info.status == NonlinearOptimizerStatus.START
         ] = NonlinearOptimizerStatus.MAX_ITERATIONS
-- 
2.43.0


From 59fcd95d41cf273368c562ee4c1ca8dcb71ea030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:15 +0000
Subject: [PATCH 50/97] fix: a rejected step is taken for convergence if other
 batch elements had theirs accepted

---
 .../nonlinear/nonlinear_least_squares.py      | 39 +++++++++++--------
 .../nonlinear/nonlinear_optimizer.py          | 18 +++++++--
 2 files changed, 38 insertions(+), 19 deletions(-)

diff --git a/theseus/optimizer/nonlinear/nonlinear_least_squares.py b/theseus/optimizer/nonlinear/nonlinear_least_squares.py
index d52a7a6..71fd406 100644
--- a/theseus/optimizer/nonlinear/nonlinear_least_squares.py
+++ b/theseus/optimizer/nonlinear/nonlinear_least_squares.py
@@ -110,7 +110,7 @@ class NonlinearLeastSquares(NonlinearOptimizer, abc.ABC):
         converged_indices = torch.zeros_like(info.last_err).bool()
         iters_done = 0
         it_ = 0
-        all_reject_attempts = 0
+        reject_attempts = torch.zeros_like(info.last_err, dtype=torch.long)
         while it_ < num_iter:
             # do optimizer step
             # See comment inside `if _last_implicit_diff_step` case below
@@ -170,7 +170,7 @@ class NonlinearLeastSquares(NonlinearOptimizer, abc.ABC):
 
             # For now, step size is combined with delta. If we add more sophisticated
             # line search, will probably need to pass it separately, or compute inside.
-            err, all_rejected = self._step(
+            err, rejected_indices = self._step(
                 delta * steps_tensor,
                 info.last_err,
                 converged_indices,
@@ -178,24 +178,31 @@ class NonlinearLeastSquares(NonlinearOptimizer, abc.ABC):
                 delta_forced_to_gn=_last_implicit_diff_step,
                 **kwargs,
             )  # err is shape (batch_size,)
-            if all_rejected:
-                # The optimizer rejected all steps so just continue, otherwise convergence
-                # check will stop prematurely. However, we put a max on this to guarantee
-                # this terminates
-                all_reject_attempts += 1
-                if all_reject_attempts < NonlinearOptimizer._MAX_ALL_REJECT_ATTEMPTS:
+            if rejected_indices is not None:
+                # If a step was rejected, it must be retried, otherwise convergence check
+                # will stop prematurely. However, we put a max on this for each batch
+                # element to guarantee this terminates.
+                all_rejected = (rejected_indices | converged_indices).all()
+                rejected_indices = rejected_indices & ~converged_indices
+                reject_attempts = (reject_attempts + 1) * rejected_indices
+                give_up = reject_attempts >= NonlinearOptimizer._MAX_ALL_REJECT_ATTEMPTS
+                if all_rejected and not give_up.any():
                     continue
-            all_reject_attempts = 0
+                rejected_indices = rejected_indices & ~give_up
 
             # check for convergence if at least one step was accepted
             with torch.no_grad():
-                self._update_info(info, it_, err, converged_indices)
+                self._update_info(
+                    info, it_, err, converged_indices, rejected_indices
+                )
                 if verbose:
                     print(
                         f"Nonlinear optimizer. Iteration: {it_+1}. "
                         f"Error: {err.mean().item()}"
                     )
-                converged_indices = self._check_convergence(err, info.last_err)
+                converged_indices = self._check_convergence(
+                    err, info.last_err, rejected_indices
+                )
                 info.status[
                     converged_indices.cpu().numpy()
                 ] = NonlinearOptimizerStatus.CONVERGED
@@ -331,8 +338,8 @@ class NonlinearLeastSquares(NonlinearOptimizer, abc.ABC):
     # variables.
     # Batch indices indicated by `converged_indices` mask are ignored
     # unless `force_update = True`.
-    # Returns the total error tensor after the update and a boolean indicating
-    # if all steps were rejected.
+    # Returns the total error tensor after the update and an optional mask
+    # of the batch indices for which the step was rejected.
     #
     # `previous_err` refes to the squared norm of the
     # error vector, as returned by self.objective.error_metric()
@@ -346,7 +353,7 @@ class NonlinearLeastSquares(NonlinearOptimizer, abc.ABC):
         force_update: bool,
         delta_forced_to_gn: bool,
         **kwargs,
-    ) -> Tuple[torch.Tensor, bool]:
+    ) -> Tuple[torch.Tensor, Optional[torch.Tensor]]:
         tensor_dict, err = self._compute_retracted_tensors_and_error(
             delta, converged_indices, force_update
         )
@@ -359,13 +366,13 @@ class NonlinearLeastSquares(NonlinearOptimizer, abc.ABC):
             reject_indices = self._complete_step(delta, err, previous_err, **kwargs)
 
         if reject_indices is not None and reject_indices.all():
-            return previous_err, True
+            return previous_err, reject_indices
 
         self.objective.update(tensor_dict, batch_ignore_mask=reject_indices)
         if reject_indices is not None and reject_indices.any():
             # Some steps were rejected so the error computed above is not accurate
             err = self.objective.error_metric()
-        return err, False
+        return err, reject_indices
 
     # Resets any internal state needed by the optimizer for a new optimization
     # problem. Optimizer loop will pass all optimizer kwargs to this method.
diff --git a/theseus/optimizer/nonlinear/nonlinear_optimizer.py b/theseus/optimizer/nonlinear/nonlinear_optimizer.py
index dd7c54b..3d9855c 100644
--- a/theseus/optimizer/nonlinear/nonlinear_optimizer.py
+++ b/theseus/optimizer/nonlinear/nonlinear_optimizer.py
@@ -107,16 +107,25 @@ class NonlinearOptimizer(Optimizer, abc.ABC):
         self.params.update(kwargs)
 
     @torch.no_grad()
-    def _check_convergence(self, err: torch.Tensor, last_err: torch.Tensor):
+    def _check_convergence(
+        self,
+        err: torch.Tensor,
+        last_err: torch.Tensor,
+        rejected_indices: Optional[torch.Tensor] = None,
+    ):
         if err.abs().mean() < self.params.abs_err_tolerance:
             return torch.ones_like(err).bool()
 
         err_change = last_err - err
         abs_err_change = err_change.abs()
         rel_err_change = (err_change / last_err).abs()
-        return (abs_err_change < self.params.abs_err_tolerance).logical_or(
+        converged_indices = (abs_err_change < self.params.abs_err_tolerance).logical_or(
             rel_err_change < self.params.rel_err_tolerance
         )
+        if rejected_indices is not None:
+            # The error of these didn't change because their step was not applied
+            converged_indices = converged_indices.logical_and(~rejected_indices)
+        return converged_indices
 
     def _maybe_init_best_solution(
         self, do_init: bool = False
@@ -198,6 +207,7 @@ class NonlinearOptimizer(Optimizer, abc.ABC):
         current_iter: int,
         err: torch.Tensor,
         converged_indices: torch.Tensor,
+        rejected_indices: Optional[torch.Tensor] = None,
     ):
         info.converged_iter += 1 - converged_indices.long()
         if info.err_history is not None:
@@ -218,7 +228,9 @@ class NonlinearOptimizer(Optimizer, abc.ABC):
 
             info.best_err = torch.minimum(info.best_err, err)
 
-        converged_indices = self._check_convergence(err, info.last_err)
+        converged_indices = self._check_convergence(
+            err, info.last_err, rejected_indices
+        )
         info.status[
             np.array(converged_indices.detach().cpu())
         ] = NonlinearOptimizerStatus.CONVERGED
-- 
2.43.0


From 4fca3402ee82605a9d85d8a7c55229759b8a40dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:04 +0000
Subject: [PATCH 51/97] fix: optimizers don't handle CHOLMOD's errors as
 failures of the linear solver

---
 .../optimizer/linear/cholmod_sparse_solver.py | 21 ++++++++++++-------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/theseus/optimizer/linear/cholmod_sparse_solver.py b/theseus/optimizer/linear/cholmod_sparse_solver.py
index 483a8a8..19d1cd2 100644
--- a/theseus/optimizer/linear/cholmod_sparse_solver.py
+++ b/theseus/optimizer/linear/cholmod_sparse_solver.py
@@ -11,6 +11,7 @@ import torch
 # prevent confusion with the factors of the factor graph,
 # when using the probabilistic naming convention
 try:
+    from sksparse.cholmod import CholmodError
     from sksparse.cholmod import Factor as CholeskyDecomposition
     from sksparse.cholmod import analyze_AAt
 except ModuleNotFoundError:
@@ -64,11 +65,15 @@ class CholmodSparseSolver(LinearSolver):
                 "CholmodSparseSolver only works with theseus.optimizer.SparseLinearization."
             )
 
-        return CholmodSolveFunction.apply(
-            self.linearization.A_val,
-            self.linearization.b,
-            self.linearization.structure(),
-            self._symbolic_cholesky_decomposition,
-            damping,
-            self.linearization.detached_hessian,
-        )
+        try:
+            return CholmodSolveFunction.apply(
+                self.linearization.A_val,
+                self.linearization.b,
+                self.linearization.structure(),
+                self._symbolic_cholesky_decomposition,
+                damping,
+                self.linearization.detached_hessian,
+            )
+        except CholmodError as e:
+            # optimizers handle failures of all linear solvers as RuntimeError
+            raise RuntimeError(f"{type(e).__name__}: {e}") from e
-- 
2.43.0


From aded99185a059eb065e5aad783ab70984a8ef1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:31 +0000
Subject: [PATCH 52/97] fix: the damping of float64 problems is rounded to
 float32

---
 theseus/optimizer/linear/dense_solver.py | 2 +-
 theseus/optimizer/linear/utils.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/theseus/optimizer/linear/dense_solver.py b/theseus/optimizer/linear/dense_solver.py
index 49c48ea..82dfedb 100644
--- a/theseus/optimizer/linear/dense_solver.py
+++ b/theseus/optimizer/linear/dense_solver.py
@@ -51,7 +51,7 @@ class DenseSolver(LinearSolver, abc.ABC):
 
         # See Nocedal and Wright, Numerical Optimization, pp. 260 and 261
         # https://www.csie.ntu.edu.tw/~r97002/temp/num_optimization.pdf
-        damping = torch.as_tensor(damping).to(device=matrix.device, dtype=matrix.dtype)
+        damping = torch.as_tensor(damping, device=matrix.device, dtype=matrix.dtype)
         if ellipsoidal:
             damping = damping.view(-1, 1)
             # Add eps to guard against ill-conditioned matrix
diff --git a/theseus/optimizer/linear/utils.py b/theseus/optimizer/linear/utils.py
index 6388be2..fe6aef4 100644
--- a/theseus/optimizer/linear/utils.py
+++ b/theseus/optimizer/linear/utils.py
@@ -19,7 +19,7 @@ def convert_to_alpha_beta_damping_tensors(
     device: DeviceType,
     dtype: torch.dtype,
 ) -> Tuple[torch.Tensor, torch.Tensor]:
-    damping = torch.as_tensor(damping).to(device=device, dtype=dtype)
+    damping = torch.as_tensor(damping, device=device, dtype=dtype)
     if damping.ndim > 1:
         raise ValueError("Damping must be a float or a 1-D tensor.")
     if damping.ndim == 0 or damping.shape[0] == 1 and batch_size != 1:
-- 
2.43.0


From 51b6b20c9550a77093c8a3b2de107928c35b34c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:14 +0000
Subject: [PATCH 53/97] fix: damping and trust region of converged batch
 elements no longer drift while others iterate

---
 .../optimizer/nonlinear/levenberg_marquardt.py | 14 +++++++++-----
 .../nonlinear/nonlinear_least_squares.py       |  8 +++++++-
 theseus/optimizer/nonlinear/trust_region.py    | 18 +++++++++++-------
 3 files changed, 27 insertions(+), 13 deletions(-)

diff --git a/theseus/optimizer/nonlinear/levenberg_marquardt.py b/theseus/optimizer/nonlinear/levenberg_marquardt.py
index ce1902a..0410ef6 100644
--- a/theseus/optimizer/nonlinear/levenberg_marquardt.py
+++ b/theseus/optimizer/nonlinear/levenberg_marquardt.py
@@ -146,6 +146,7 @@ class LevenbergMarquardt(NonlinearLeastSquares):
         up_damping_ratio: float = 11.0,
         damping_accept: float = 0.1,
         ellipsoidal_damping: bool = False,
+        converged_indices: Optional[torch.Tensor] = None,
         **kwargs,
     ) -> Optional[torch.Tensor]:
         # "err" tensors passed as input refer to the squared norm of the
@@ -159,6 +160,7 @@ class LevenbergMarquardt(NonlinearLeastSquares):
                 down_damping_ratio,
                 up_damping_ratio,
                 ellipsoidal_damping,
+                converged_indices=converged_indices,
             )
         else:
             return None
@@ -179,6 +181,7 @@ class LevenbergMarquardt(NonlinearLeastSquares):
         down_damping_ratio: float,
         up_damping_ratio: float,
         ellipsoidal_damping: bool,
+        converged_indices: Optional[torch.Tensor] = None,
     ) -> torch.Tensor:
         linearization = self.linear_solver.linearization
         assert isinstance(self._damping, torch.Tensor)
@@ -190,12 +193,13 @@ class LevenbergMarquardt(NonlinearLeastSquares):
         den = (delta * (damping * delta + linearization.Atb.squeeze(2))).sum(dim=1) / 2
         rho = (previous_err - err) / den
         reject_indices = rho <= damping_accept
-        self._damping = torch.where(
+        new_damping = torch.where(
             reject_indices,
             self._damping * up_damping_ratio,
             self._damping / down_damping_ratio,
-        )
-        self._damping = self._damping.clamp(
-            LevenbergMarquardt._MIN_DAMPING, LevenbergMarquardt._MAX_DAMPING
-        )
+        ).clamp(LevenbergMarquardt._MIN_DAMPING, LevenbergMarquardt._MAX_DAMPING)
+        if converged_indices is not None:
+            # these took no step, so there is nothing to adapt to
+            new_damping = torch.where(converged_indices, self._damping, new_damping)
+        self._damping = new_damping
         return reject_indices
diff --git a/theseus/optimizer/nonlinear/nonlinear_least_squares.py b/theseus/optimizer/nonlinear/nonlinear_least_squares.py
index 71fd406..344e6d8 100644
--- a/theseus/optimizer/nonlinear/nonlinear_least_squares.py
+++ b/theseus/optimizer/nonlinear/nonlinear_least_squares.py
@@ -363,7 +363,13 @@ class NonlinearLeastSquares(NonlinearOptimizer, abc.ABC):
             # other methods like LM or Dogleg (so the step is not rejected)
             reject_indices = None
         else:
-            reject_indices = self._complete_step(delta, err, previous_err, **kwargs)
+            reject_indices = self._complete_step(
+                delta,
+                err,
+                previous_err,
+                converged_indices=converged_indices,
+                **kwargs,
+            )
 
         if reject_indices is not None and reject_indices.all():
             return previous_err, reject_indices
diff --git a/theseus/optimizer/nonlinear/trust_region.py b/theseus/optimizer/nonlinear/trust_region.py
index 01f256f..fa88d6b 100644
--- a/theseus/optimizer/nonlinear/trust_region.py
+++ b/theseus/optimizer/nonlinear/trust_region.py
@@ -122,6 +122,7 @@ class TrustRegion(NonlinearLeastSquares, abc.ABC):
         expand_ratio: float = 2.0,
         min_trust_region: float = 1.0e-5,
         max_trust_region: float = 1.0e5,
+        converged_indices: Optional[torch.Tensor] = None,
         **kwargs,
     ) -> Optional[torch.Tensor]:
         # "err" tensors passed as input refer to the squared norm of the
@@ -138,14 +139,17 @@ class TrustRegion(NonlinearLeastSquares, abc.ABC):
             )
         rho = self._compute_rho(delta, previous_err, new_err)
         shrink_idx = rho < shrink_threshold
-        self._trust_region = torch.where(
+        trust_region = torch.where(
             shrink_idx, self._trust_region * shrink_ratio, self._trust_region
         )
         expand_idx = rho > expand_threshold
-        self._trust_region = torch.where(
-            expand_idx, self._trust_region * expand_ratio, self._trust_region
-        )
-        self._trust_region = self._trust_region.clamp(
-            min_trust_region, max_trust_region
-        )
+        trust_region = torch.where(
+            expand_idx, trust_region * expand_ratio, trust_region
+        ).clamp(min_trust_region, max_trust_region)
+        if converged_indices is not None:
+            # these took no step, so there is nothing to adapt to
+            trust_region = torch.where(
+                converged_indices.view(-1, 1), self._trust_region, trust_region
+            )
+        self._trust_region = trust_region
         return (rho < accept_threshold).view(-1)
-- 
2.43.0


From c94a6302cad9618d873c154309a0f00d43e4c67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:22 +0000
Subject: [PATCH 54/97] fix: DLM accepts inputs whose only differentiable
 tensors are initial values

---
 theseus/theseus_layer.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/theseus/theseus_layer.py b/theseus/theseus_layer.py
index ca4869e..8c1d2fa 100644
--- a/theseus/theseus_layer.py
+++ b/theseus/theseus_layer.py
@@ -228,10 +228,13 @@ class TheseusLayerDLMForward(torch.autograd.Function):
 
             # Precompute and cache this.
             with torch.enable_grad():
-                grad_sol = torch.autograd.grad(
-                    objective.error_metric().sum(),
-                    differentiable_tensors,
-                    allow_unused=True,
+                loss = objective.error_metric().sum()
+                # Initial values of optimization variables can be the only inputs that
+                # require gradients, but the error at the solution doesn't depend on them
+                grad_sol = (
+                    torch.autograd.grad(loss, differentiable_tensors, allow_unused=True)
+                    if loss.requires_grad
+                    else (None,) * ctx.k
                 )
             ctx.save_for_backward(
                 *input_vals, *grad_sol, *differentiable_tensors, *optim_tensors
@@ -278,6 +281,10 @@ class TheseusLayerDLMForward(torch.autograd.Function):
                 delta, bwd_optimizer.linear_solver.linearization.ordering
             )
 
+        nones = [None] * (ctx.n * 2)
+        if all(gs is None for gs in grad_sol):
+            return (None, None, None, None, None, None, None, *nones, *grad_sol)
+
         # Compute gradients.
         with torch.enable_grad():
             grad_perturbed = torch.autograd.grad(
@@ -286,7 +293,6 @@ class TheseusLayerDLMForward(torch.autograd.Function):
                 allow_unused=True,
             )
 
-        nones = [None] * (ctx.n * 2)
         grads = [
             (gs - gp) / epsilon if gs is not None else None
             for gs, gp in zip(grad_sol, grad_perturbed)
-- 
2.43.0


From e36f0fd7cbad43d92cf85decb3244f0eaeac194e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:57 +0000
Subject: [PATCH 55/97] fix: a linear solver failure in the last
 (truncated/implicit) loop is reported as FAIL, not an AssertionError

---
 theseus/optimizer/nonlinear/nonlinear_optimizer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/theseus/optimizer/nonlinear/nonlinear_optimizer.py b/theseus/optimizer/nonlinear/nonlinear_optimizer.py
index 3d9855c..646f445 100644
--- a/theseus/optimizer/nonlinear/nonlinear_optimizer.py
+++ b/theseus/optimizer/nonlinear/nonlinear_optimizer.py
@@ -286,10 +286,13 @@ class NonlinearOptimizer(Optimizer, abc.ABC):
 
         # Merge the converged status into the info from the detached loop,
         M = info.status == NonlinearOptimizerStatus.MAX_ITERATIONS
+        F = grad_loop_info.status == NonlinearOptimizerStatus.FAIL
         assert np.all(
             (grad_loop_info.status[M] == NonlinearOptimizerStatus.MAX_ITERATIONS)
             | (grad_loop_info.status[M] == NonlinearOptimizerStatus.CONVERGED)
+            | F[M]
         )
+        info.status[F] = NonlinearOptimizerStatus.FAIL
         info.status[M] = grad_loop_info.status[M]
         info.converged_iter[M] = (
             info.converged_iter[M] + grad_loop_info.converged_iter[M]
-- 
2.43.0


From 49a4b88dad331a98e474da68cb67804cf8e5c449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:01 +0000
Subject: [PATCH 56/97] fix: an exception inside a Lie group check context
 leaves the checks as the context set them

---
 theseus/geometry/lie_group_check.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/theseus/geometry/lie_group_check.py b/theseus/geometry/lie_group_check.py
index 1305378..adfbfbe 100644
--- a/theseus/geometry/lie_group_check.py
+++ b/theseus/geometry/lie_group_check.py
@@ -50,8 +50,10 @@ def set_lie_group_check_enabled(
     """
     prev = _LieGroupCheckContext.get_context()
     _LieGroupCheckContext.set_context(mode, silent, silence_internal_warnings)
-    yield
-    _LieGroupCheckContext.set_context(*prev)
+    try:
+        yield
+    finally:
+        _LieGroupCheckContext.set_context(*prev)
 
 
 @contextmanager
@@ -94,5 +96,9 @@ def silence_internal_warnings():
     """
     mode, silent, prev_silence_internal_warnings = _LieGroupCheckContext.get_context()
     _LieGroupCheckContext.set_context(mode, silent, silence_internal_warnings=True)
-    yield
-    _LieGroupCheckContext.set_context(mode, silent, prev_silence_internal_warnings)
+    try:
+        yield
+    finally:
+        _LieGroupCheckContext.set_context(
+            mode, silent, prev_silence_internal_warnings
+        )
-- 
2.43.0


From d4672e5205b74f39172dcb1117c5b93362b5c6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:01 +0000
Subject: [PATCH 57/97] fix: lie.as_euclidean() takes effect on construction
 instead of when the context is entered

---
 torchlie/torchlie/lie_tensor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/torchlie/torchlie/lie_tensor.py b/torchlie/torchlie/lie_tensor.py
index 5e518ce..88b456a 100644
--- a/torchlie/torchlie/lie_tensor.py
+++ b/torchlie/torchlie/lie_tensor.py
@@ -41,11 +41,11 @@ class _LieAsEuclideanContext:
 
 class as_euclidean:
     def __init__(self) -> None:
-        self.prev = _LieAsEuclideanContext.get_context()
-        _LieAsEuclideanContext.set_context(True)
+        pass
 
     def __enter__(self) -> None:
-        pass
+        self.prev = _LieAsEuclideanContext.get_context()
+        _LieAsEuclideanContext.set_context(True)
 
     def __exit__(self, exc_type: Any, exc_value: Any, traceback: Any) -> None:
         _LieAsEuclideanContext.set_context(self.prev)
-- 
2.43.0


From a7374855530cfb0747e82d09c4d2c46917a1e8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:01 +0000
Subject: [PATCH 58/97] fix: torchlie.reset_global_params() doesn't reset the
 boolean options

---
 torchlie/torchlie/global_params.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/torchlie/torchlie/global_params.py b/torchlie/torchlie/global_params.py
index 00e7e8e..5b8e805 100644
--- a/torchlie/torchlie/global_params.py
+++ b/torchlie/torchlie/global_params.py
@@ -57,6 +57,9 @@ class _TorchLieGlobalParams:
         self.so3_hat_eps_float64 = 5e-7
         self.se3_hat_eps_float64 = 5e-7
 
+        self._allow_passthrough_ops = False
+        self._faster_log_maps = False
+
 
 _TORCHLIE_GLOBAL_PARAMS = _TorchLieGlobalParams()
 
-- 
2.43.0


From 5319289234cc3ce5aba2b21cb8c33996898d99d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:05 +0000
Subject: [PATCH 59/97] fix: so2_norm_eps_float64 is never set, so normalizing
 a zero float64 vector gives NaN

---
 theseus/global_params.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theseus/global_params.py b/theseus/global_params.py
index 1d05ae3..0ee0260 100644
--- a/theseus/global_params.py
+++ b/theseus/global_params.py
@@ -49,8 +49,8 @@ class _TheseusGlobalParams:
         self.se2_near_zero_eps_float32 = 3e-2
         self.se2_d_near_zero_eps_float32 = 1e-1
         self.so3_to_quaternion_sqrt_eps_float32 = 1e-6
-        self.so2_norm_eps_float32 = 1e-12
 
+        self.so2_norm_eps_float64 = 1e-12
         self.so2_matrix_eps_float64 = 4e-7
         self.se2_near_zero_eps_float64 = 1e-6
         self.se2_d_near_zero_eps_float64 = 1e-3
-- 
2.43.0


From fed90b23d9bd04c1d9a53759ca720eeb913cf4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:17 +0000
Subject: [PATCH 60/97] fix: retract_gaussian rejects float32 Gaussians because
 of rounding in the precision it computes

---
 theseus/optimizer/manifold_gaussian.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/theseus/optimizer/manifold_gaussian.py b/theseus/optimizer/manifold_gaussian.py
index 8cf1d98..e42a09c 100644
--- a/theseus/optimizer/manifold_gaussian.py
+++ b/theseus/optimizer/manifold_gaussian.py
@@ -166,5 +166,7 @@ def retract_gaussian(
     variable.exp_map(mean_tp, jacobians=jac)
     inv_jac = torch.inverse(jac[0])
     precision = torch.bmm(torch.bmm(inv_jac.transpose(-1, -2), precision_tp), inv_jac)
+    # remove the asymmetry introduced by rounding
+    precision = 0.5 * (precision + precision.transpose(-1, -2))
 
     return ManifoldGaussian(mean=[mean], precision=precision)
-- 
2.43.0


From 26e277a2823c259ff23de52ad4365fef73407dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:17 +0000
Subject: [PATCH 61/97] fix: higher-order derivatives of forward kinematics
 omit the jacobian's dependence on the angles

---
 torchkin/torchkin/forward_kinematics.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/torchkin/torchkin/forward_kinematics.py b/torchkin/torchkin/forward_kinematics.py
index 5c226d1..26e94d2 100644
--- a/torchkin/torchkin/forward_kinematics.py
+++ b/torchkin/torchkin/forward_kinematics.py
@@ -80,16 +80,21 @@ def ForwardKinematicsFactory(robot: Robot, link_names: Optional[List[str]] = Non
 
         @staticmethod
         def setup_context(ctx, inputs, output):
-            ctx.save_for_backward(*output[:-1])
+            ctx.save_for_backward(*output[:-1], inputs[0])
             ctx.poses = output[-1]
 
         @staticmethod
         def backward(ctx, *grad_outputs):
-            rets: tuple(torch.Tensor) = ctx.saved_tensors
-            if not hasattr(ctx, "jposes"):
-                ctx.jposes: torch.Tensor = _forward_kinematics_backward_helper(
-                    ctx.poses
-                )
+            *rets, angles = ctx.saved_tensors
+            if torch.is_grad_enabled():
+                # ctx.poses carries no gradients, so for higher-order derivatives
+                # the jacobian must be recomputed as a function of the angles
+                poses = _forward_kinematics_helper(angles)
+                jposes: torch.Tensor = _forward_kinematics_backward_helper(poses)
+            else:
+                if not hasattr(ctx, "jposes"):
+                    ctx.jposes = _forward_kinematics_backward_helper(ctx.poses)
+                jposes = ctx.jposes
             grad_pose = grad_outputs[-2].new_zeros(
                 grad_outputs[-2].shape[0], 6, robot.dof
             )
@@ -109,7 +114,7 @@ def ForwardKinematicsFactory(robot: Robot, link_names: Optional[List[str]] = Non
                 ).unsqueeze(-1)
                 grad_pose[:, :, ancestor_non_fixed_joint_ids] += temp
             grad_input[:, joint_ids] = (
-                ctx.jposes[:, :, joint_ids] * grad_pose[:, :, joint_ids]
+                jposes[:, :, joint_ids] * grad_pose[:, :, joint_ids]
             ).sum(-2)
 
             return grad_input
-- 
2.43.0


From 0ab2963b08488813821d66c99097ebcc537b2cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:17 +0000
Subject: [PATCH 62/97] fix: URDF joints without an axis element are not read
 with URDF's default axis

---
 torchkin/torchkin/robot.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/torchkin/torchkin/robot.py b/torchkin/torchkin/robot.py
index a355930..36ebc1e 100644
--- a/torchkin/torchkin/robot.py
+++ b/torchkin/torchkin/robot.py
@@ -101,7 +101,11 @@ class Robot(abc.ABC):
                         origin=origin,
                     )
                 else:
-                    axis = origin.new_tensor(urdf_joint.axis)
+                    axis = origin.new_tensor(
+                        urdf_joint.axis
+                        if urdf_joint.axis is not None
+                        else [1.0, 0.0, 0.0]  # URDF's default
+                    )
                     joint = joint_type(
                         urdf_joint.name,
                         axis,
-- 
2.43.0


From a7175c06f55d1d80d6ece351abdad039dab966a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:17 +0000
Subject: [PATCH 63/97] fix: UrdfRobotModel with the default link_names raises
 in forward_kinematics

---
 theseus/embodied/kinematics/kinematics_model.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/theseus/embodied/kinematics/kinematics_model.py b/theseus/embodied/kinematics/kinematics_model.py
index ab08077..8cdefe3 100644
--- a/theseus/embodied/kinematics/kinematics_model.py
+++ b/theseus/embodied/kinematics/kinematics_model.py
@@ -60,7 +60,11 @@ class UrdfRobotModel(KinematicsModel):
         self.fk, self.jfk_b, self.jfk_s = get_forward_kinematics_fns(
             self.robot, link_names
         )
-        self.link_names = link_names
+        self.link_names = (
+            link_names
+            if link_names is not None
+            else [link.name for link in self.robot.get_links()]
+        )
 
     def forward_kinematics(  # type: ignore
         self,
-- 
2.43.0


From 8886fcb0b285d5d1bec093eced2e0b10f50c10b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:11 +0000
Subject: [PATCH 64/97] fix: vmap over the backward pass of forward kinematics
 fails when only some links have batched gradients

---
 torchkin/torchkin/forward_kinematics.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/torchkin/torchkin/forward_kinematics.py b/torchkin/torchkin/forward_kinematics.py
index 26e94d2..4ffdf11 100644
--- a/torchkin/torchkin/forward_kinematics.py
+++ b/torchkin/torchkin/forward_kinematics.py
@@ -95,12 +95,9 @@ def ForwardKinematicsFactory(robot: Robot, link_names: Optional[List[str]] = Non
                 if not hasattr(ctx, "jposes"):
                     ctx.jposes = _forward_kinematics_backward_helper(ctx.poses)
                 jposes = ctx.jposes
-            grad_pose = grad_outputs[-2].new_zeros(
-                grad_outputs[-2].shape[0], 6, robot.dof
-            )
-            grad_input = grad_outputs[-2].new_zeros(
-                grad_outputs[-2].shape[0], robot.dof
-            )
+            # out-of-place operations only, since with vmap some of the
+            # grad_outputs might be batched and others not
+            grad_pose = angles.new_zeros(angles.shape[0], 6, robot.dof)
 
             for link_id, ret, grad_output in zip(link_ids, rets, grad_outputs):
                 ancestor_non_fixed_joint_ids = robot.links[
@@ -112,10 +109,17 @@ def ForwardKinematicsFactory(robot: Robot, link_names: Optional[List[str]] = Non
                         dim=-1,
                     )
                 ).unsqueeze(-1)
-                grad_pose[:, :, ancestor_non_fixed_joint_ids] += temp
-            grad_input[:, joint_ids] = (
-                jposes[:, :, joint_ids] * grad_pose[:, :, joint_ids]
-            ).sum(-2)
+                grad_pose = grad_pose.index_add(
+                    2,
+                    torch.tensor(
+                        ancestor_non_fixed_joint_ids,
+                        dtype=torch.long,
+                        device=temp.device,
+                    ),
+                    temp.expand(-1, -1, len(ancestor_non_fixed_joint_ids)),
+                )
+            # jposes is zero for all joints that are not in joint_ids
+            grad_input = (jposes * grad_pose).sum(-2)
 
             return grad_input
 
-- 
2.43.0


From e760e47cb4c463c4bffc903168b887cc780c6dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:24 +0000
Subject: [PATCH 65/97] fix: SignedDistanceField2D.update_data keeps the size
 of the previous field

---
 theseus/embodied/collision/signed_distance_field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/theseus/embodied/collision/signed_distance_field.py b/theseus/embodied/collision/signed_distance_field.py
index b49c8a0..d26ca30 100644
--- a/theseus/embodied/collision/signed_distance_field.py
+++ b/theseus/embodied/collision/signed_distance_field.py
@@ -44,8 +44,6 @@ class SignedDistanceField2D:
         self.cell_size: Variable
         self.sdf_data: Variable
         self.update_data(origin, sdf_data, cell_size)
-        self._num_rows = sdf_data.shape[1]
-        self._num_cols = sdf_data.shape[2]
         self.sdf_boundary_value = sdf_boundary_value
 
     def _compute_sdf_data_from_map(
@@ -159,6 +157,8 @@ class SignedDistanceField2D:
 
         # Update sdf_data
         self.sdf_data = SignedDistanceField2D.convert_sdf_data(sdf_data)
+        self._num_rows = self.sdf_data.shape[1]
+        self._num_cols = self.sdf_data.shape[2]
 
     def convert_points_to_cell(
         self, points: torch.Tensor
-- 
2.43.0


From 7f4e56b7be4c41ced2da7cdb18c783363504ac0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:34 +0000
Subject: [PATCH 66/97] fix: DCEM fails or has NaN gradients when all the
 weight is on one sample

---
 theseus/optimizer/nonlinear/dcem.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/theseus/optimizer/nonlinear/dcem.py b/theseus/optimizer/nonlinear/dcem.py
index 042151a..6a087ec 100644
--- a/theseus/optimizer/nonlinear/dcem.py
+++ b/theseus/optimizer/nonlinear/dcem.py
@@ -130,7 +130,6 @@ class DCEM(NonlinearOptimizer):
                     N=self.n_elite, verbose=self.lml_verbose, eps=self.lml_eps
                 )(-_fX * self.temp)
             indexes = indexes.unsqueeze(2)
-            eps = 0
 
         else:
             indexes_vals = fX.argsort(dim=1)[:, : self.n_elite]
@@ -139,7 +138,6 @@ class DCEM(NonlinearOptimizer):
                 1, indexes_vals, 1.0
             )
             indexes = indexes.unsqueeze(2)
-            eps = 1e-10
         # indexes.shape should be (n_batch, n_sample, 1)
 
         X = X.transpose(0, 1)
@@ -149,9 +147,11 @@ class DCEM(NonlinearOptimizer):
         X_I = indexes * X
 
         mu = torch.sum(X_I, dim=1) / self.n_elite
+        # adding eps to avoid sigma=0 (and its infinite derivative), which happens when
+        # temp=None or when the weight concentrates on a single sample
         self.sigma = (
-            (indexes * (X - mu.unsqueeze(1)) ** 2).sum(dim=1) / self.n_elite
-        ).sqrt() + eps  # adding eps to avoid sigma=0, which is happening when temp=None
+            (indexes * (X - mu.unsqueeze(1)) ** 2).sum(dim=1) / self.n_elite + 1e-20
+        ).sqrt()
 
         assert self.sigma.shape == (n_batch, self._tot_dof)
 
-- 
2.43.0


From 7433f2a26e2b7bfeac94f3f109724f4f2d9e62af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:34 +0000
Subject: [PATCH 67/97] fix: DCEM assumes that the objective's dtype is torch's
 default

---
 theseus/optimizer/nonlinear/dcem.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/theseus/optimizer/nonlinear/dcem.py b/theseus/optimizer/nonlinear/dcem.py
index 6a087ec..7a46f18 100644
--- a/theseus/optimizer/nonlinear/dcem.py
+++ b/theseus/optimizer/nonlinear/dcem.py
@@ -86,7 +86,9 @@ class DCEM(NonlinearOptimizer):
     def reset_sigma(self, init_sigma: Union[float, torch.Tensor]) -> None:
         self.sigma = (
             torch.ones(
-                (self.objective.batch_size, self._tot_dof), device=self.objective.device
+                (self.objective.batch_size, self._tot_dof),
+                device=self.objective.device,
+                dtype=self.objective.dtype,
             )
             * init_sigma
         )
@@ -134,9 +136,9 @@ class DCEM(NonlinearOptimizer):
         else:
             indexes_vals = fX.argsort(dim=1)[:, : self.n_elite]
             # Scatter 1.0 to the indexes using indexes_vals
-            indexes = torch.zeros(n_batch, self.n_samples, device=device).scatter_(
-                1, indexes_vals, 1.0
-            )
+            indexes = torch.zeros(
+                n_batch, self.n_samples, device=device, dtype=fX.dtype
+            ).scatter_(1, indexes_vals, 1.0)
             indexes = indexes.unsqueeze(2)
         # indexes.shape should be (n_batch, n_sample, 1)
 
-- 
2.43.0


From 3a41cba4033c19d00bb2e961edfd8bd7c73bb9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:18 +0000
Subject: [PATCH 68/97] fix: read_2D_g2o_file raises TypeError for any edge

---
 theseus/utils/examples/pose_graph/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theseus/utils/examples/pose_graph/dataset.py b/theseus/utils/examples/pose_graph/dataset.py
index 61272a4..0c35b6b 100644
--- a/theseus/utils/examples/pose_graph/dataset.py
+++ b/theseus/utils/examples/pose_graph/dataset.py
@@ -135,7 +135,7 @@ def read_2D_g2o_file(
 
                 sel = [0, 3, 5]
                 weight = th.Variable(
-                    torch.from_numpy(np.array(1, tokens[6:], dtype=np.float64)[sel])
+                    torch.from_numpy(np.array(tokens[6:], dtype=np.float64)[sel])
                     .to(dtype)
                     .sqrt()
                     .view(1, -1)
-- 
2.43.0


From 5d5b9154edfc7c1a88a56b2cf78efbbf3429cc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:18 +0000
Subject: [PATCH 69/97] fix: the g2o readers raise IndexError for a blank line

---
 theseus/utils/examples/pose_graph/dataset.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/theseus/utils/examples/pose_graph/dataset.py b/theseus/utils/examples/pose_graph/dataset.py
index 0c35b6b..47df663 100644
--- a/theseus/utils/examples/pose_graph/dataset.py
+++ b/theseus/utils/examples/pose_graph/dataset.py
@@ -44,6 +44,8 @@ def read_3D_g2o_file(
 
         for line in lines:
             tokens = line.split()
+            if not tokens:
+                continue
 
             if tokens[0] == "EDGE_SE3:QUAT":
                 i = int(tokens[1])
@@ -119,6 +121,8 @@ def read_2D_g2o_file(
 
         for line in lines:
             tokens = line.split()
+            if not tokens:
+                continue
 
             if tokens[0] == "EDGE_SE2":
                 i = int(tokens[1])
-- 
2.43.0


From be422048c096b9ef6eed71ba98c4adfef8c9e6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:18 +0000
Subject: [PATCH 70/97] fix: PoseGraphDataset fails for edges without a weight

---
 theseus/utils/examples/pose_graph/dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/theseus/utils/examples/pose_graph/dataset.py b/theseus/utils/examples/pose_graph/dataset.py
index 47df663..69cb0fd 100644
--- a/theseus/utils/examples/pose_graph/dataset.py
+++ b/theseus/utils/examples/pose_graph/dataset.py
@@ -25,7 +25,8 @@ class PoseGraphEdge:
         self.weight = weight
 
     def to(self, *args, **kwargs):
-        self.weight.to(*args, **kwargs)
+        if self.weight is not None:
+            self.weight.to(*args, **kwargs)
         self.relative_pose.to(*args, **kwargs)
 
 
-- 
2.43.0


From ebdc368519e10c86b589556db38b2fd3fb0afe37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:18 +0000
Subject: [PATCH 71/97] fix: BundleAdjustmentDataset.load_from_file swaps the
 ground truth cameras and points

---
 theseus/utils/examples/bundle_adjustment/data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/theseus/utils/examples/bundle_adjustment/data.py b/theseus/utils/examples/bundle_adjustment/data.py
index a981e84..660e90c 100644
--- a/theseus/utils/examples/bundle_adjustment/data.py
+++ b/theseus/utils/examples/bundle_adjustment/data.py
@@ -231,9 +231,9 @@ class BundleAdjustmentDataset:
     def load_from_file(path, gt_path: Optional[str] = None):
         cameras, points, observations = BundleAdjustmentDataset.load_bal_dataset(path)
         if gt_path is not None:
-            gt_points, gt_cameras, _ = BundleAdjustmentDataset.load_bal_dataset(gt_path)
+            gt_cameras, gt_points, _ = BundleAdjustmentDataset.load_bal_dataset(gt_path)
         else:
-            gt_points, gt_cameras = None, None
+            gt_cameras, gt_points = None, None
         return BundleAdjustmentDataset(
             cameras=cameras,
             points=points,
-- 
2.43.0


From c5538456fa1ed96e3acc6577a13eeb6ff5a02150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:18 +0000
Subject: [PATCH 72/97] fix: BundleAdjustmentDataset.generate_synthetic fails
 for a single camera

---
 theseus/utils/examples/bundle_adjustment/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theseus/utils/examples/bundle_adjustment/data.py b/theseus/utils/examples/bundle_adjustment/data.py
index 660e90c..59ec4ab 100644
--- a/theseus/utils/examples/bundle_adjustment/data.py
+++ b/theseus/utils/examples/bundle_adjustment/data.py
@@ -283,7 +283,7 @@ class BundleAdjustmentDataset:
         gt_cameras = [
             Camera.generate_synthetic(
                 pos_base=torch.tensor(
-                    [-i * 100.0 / (num_cameras - 1), 0, -100], dtype=torch.float64
+                    [-i * 100.0 / max(num_cameras - 1, 1), 0, -100], dtype=torch.float64
                 ),
                 name=f"Cam{i}",
             )
-- 
2.43.0


From 961b2d7cfa283d1531a37ce4370f19f8d311a449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:18 +0000
Subject: [PATCH 73/97] fix: random_small_quaternion returns rotations by twice
 the angle

---
 theseus/utils/examples/bundle_adjustment/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theseus/utils/examples/bundle_adjustment/util.py b/theseus/utils/examples/bundle_adjustment/util.py
index bd30d74..5a67e74 100644
--- a/theseus/utils/examples/bundle_adjustment/util.py
+++ b/theseus/utils/examples/bundle_adjustment/util.py
@@ -64,5 +64,5 @@ def random_small_quaternion(
         * math.tau
         / 360.0
     )
-    c, s = torch.cos(theta), torch.sin(theta)
+    c, s = torch.cos(theta / 2), torch.sin(theta / 2)
     return torch.tensor([c, s * x, s * y, s * z])
-- 
2.43.0


From faf358f7750b803138425fabc6509edadd2c279f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:27 +0000
Subject: [PATCH 74/97] fix: PoseGraphDataset uses the wrong weights of edges
 whose weights are batched

---
 theseus/utils/examples/pose_graph/dataset.py | 24 ++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/theseus/utils/examples/pose_graph/dataset.py b/theseus/utils/examples/pose_graph/dataset.py
index 69cb0fd..405125f 100644
--- a/theseus/utils/examples/pose_graph/dataset.py
+++ b/theseus/utils/examples/pose_graph/dataset.py
@@ -3,7 +3,7 @@
 # This source code is licensed under the MIT license found in the
 # LICENSE file in the root directory of this source tree.
 
-from typing import List, Optional, Tuple, Union, cast
+from typing import Dict, List, Optional, Tuple, Union, cast
 
 import numpy as np
 import torch
@@ -380,6 +380,8 @@ class PoseGraphDataset:
                     tran = measurement[:, :, 3]
                     measurement = torch.cat([tran, quat], dim=1).view(-1).numpy()
                     weight = edge.weight.diagonal.tensor**2
+                    if weight.shape[0] > 1:
+                        weight = weight[n : n + 1]
                     line = (
                         f"EDGE_SE3:QUAT {edge.i} {edge.j} {measurement[0]} {measurement[1]} "
                         f"{measurement[2]} "
@@ -409,6 +411,24 @@ class PoseGraphDataset:
         end = min(start + self.batch_size, self.dataset_size)
         group_cls = self.poses[0].__class__
 
+        # edges that share a (batched) weight, also share its slice
+        batch_weights: Dict[str, th.DiagonalCostWeight] = {}
+
+        def _batch_weight(
+            weight: Optional[th.DiagonalCostWeight],
+        ) -> Optional[th.DiagonalCostWeight]:
+            if weight is None or weight.diagonal.shape[0] == 1:
+                return weight
+            if weight.name not in batch_weights:
+                diagonal = weight.diagonal
+                batch_weights[weight.name] = th.DiagonalCostWeight(
+                    th.Variable(
+                        diagonal[start:end].clone(), name=diagonal.name + "__batch"
+                    ),
+                    name=weight.name + "__batch",
+                )
+            return batch_weights[weight.name]
+
         poses = cast(
             Union[List[th.SE2], List[th.SE3]],
             [
@@ -436,7 +456,7 @@ class PoseGraphDataset:
                     tensor=edge.relative_pose[start:end].clone(),
                     name=edge.relative_pose.name + "__batch",
                 ),
-                weight=edge.weight,
+                weight=_batch_weight(edge.weight),
             )
             for edge in self.edges
         ]
-- 
2.43.0


From 92b0ed9200f96f234a3628a15c1f55af1ed41413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:10 +0000
Subject: [PATCH 75/97] fix: MotionPlanner.copy() ignores a collision weight of
 zero

---
 theseus/utils/examples/motion_planning/motion_planner.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/theseus/utils/examples/motion_planning/motion_planner.py b/theseus/utils/examples/motion_planning/motion_planner.py
index 2065bc5..624f531 100644
--- a/theseus/utils/examples/motion_planning/motion_planner.py
+++ b/theseus/utils/examples/motion_planning/motion_planner.py
@@ -460,7 +460,11 @@ class MotionPlanner:
             map_size=self.objective.map_size,
             epsilon_dist=self.objective.epsilon_dist,
             total_time=self.objective.total_time,
-            collision_weight=collision_weight or self.objective.collision_weight,
+            collision_weight=(
+                self.objective.collision_weight
+                if collision_weight is None
+                else collision_weight
+            ),
             Qc_inv=self.objective.Qc_inv,
             num_time_steps=self.objective.num_time_steps,
             use_single_collision_weight=self.objective.use_single_collision_weight,
-- 
2.43.0


From 7492ff7196de1146e3733195b9e8af8f5513cd5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:10 +0000
Subject: [PATCH 76/97] fix: MotionPlanner.copy() drops the nonholonomic and
 positive velocity costs

---
 theseus/utils/examples/motion_planning/motion_planner.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/theseus/utils/examples/motion_planning/motion_planner.py b/theseus/utils/examples/motion_planning/motion_planner.py
index 624f531..d750a7a 100644
--- a/theseus/utils/examples/motion_planning/motion_planner.py
+++ b/theseus/utils/examples/motion_planning/motion_planner.py
@@ -88,6 +88,8 @@ class MotionPlannerObjective(th.Objective):
         self.num_time_steps = num_time_steps
         self.use_single_collision_weight = use_single_collision_weight
         self.pose_type = pose_type
+        self.nonholonomic_w = nonholonomic_w
+        self.positive_vel_w = positive_vel_w
 
         self.trajectory_len = num_time_steps + 1
 
@@ -471,4 +473,6 @@ class MotionPlanner:
             device=self.device,
             pose_type=self.objective.pose_type,
             dtype=self.dtype,
+            nonholonomic_w=self.objective.nonholonomic_w,
+            positive_vel_w=self.objective.positive_vel_w,
         )
-- 
2.43.0


From ef2ce262750009c39c5211b3f9c287bf0235c970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:10 +0000
Subject: [PATCH 77/97] fix: MotionPlanner.get_trajectory() truncates float64
 trajectories to float32

---
 theseus/utils/examples/motion_planning/motion_planner.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/theseus/utils/examples/motion_planning/motion_planner.py b/theseus/utils/examples/motion_planning/motion_planner.py
index d750a7a..794bde6 100644
--- a/theseus/utils/examples/motion_planning/motion_planner.py
+++ b/theseus/utils/examples/motion_planning/motion_planner.py
@@ -435,6 +435,7 @@ class MotionPlanner:
             pose_numel + vel_numel,
             self.objective.trajectory_len,
             device=self.objective.device,
+            dtype=self.objective.dtype,
         )
         if values_dict is None:
             values_dict = {
-- 
2.43.0


From 9a9b23d91ea460472236c946e0095c84f13be52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:10 +0000
Subject: [PATCH 78/97] fix: MotionPlanner raises for float64 with nonholonomic
 or positive velocity costs

---
 .../examples/motion_planning/motion_planner.py     | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/theseus/utils/examples/motion_planning/motion_planner.py b/theseus/utils/examples/motion_planning/motion_planner.py
index 794bde6..8e84602 100644
--- a/theseus/utils/examples/motion_planning/motion_planner.py
+++ b/theseus/utils/examples/motion_planning/motion_planner.py
@@ -200,11 +200,15 @@ class MotionPlannerObjective(th.Objective):
 
         if nonholonomic_w > 0.0:
             assert pose_type == th.SE2
-            nhw = th.ScaleCostWeight(nonholonomic_w, name="nonholonomic_w")
+            nhw = th.ScaleCostWeight(
+                torch.tensor(nonholonomic_w, dtype=dtype), name="nonholonomic_w"
+            )
 
         if positive_vel_w > 0.0:
             assert pose_type == th.SE2
-            pvw = th.ScaleCostWeight(positive_vel_w, name="positive_vel_w")
+            pvw = th.ScaleCostWeight(
+                torch.tensor(positive_vel_w, dtype=dtype), name="positive_vel_w"
+            )
 
         # Next we add 2-D collisions and GP cost functions, and associate them with the
         # cost weights created above. We need a separate cost function for each time
@@ -249,9 +253,9 @@ class MotionPlannerObjective(th.Objective):
                 self.add(
                     HingeCost(
                         velocities[i - 1],
-                        torch.tensor([0.0, -torch.inf, -torch.inf]).view(1, 3),
-                        torch.tensor([torch.inf, torch.inf, torch.inf]).view(1, 3),
-                        1.0,
+                        torch.tensor([0.0, -torch.inf, -torch.inf], dtype=dtype).view(1, 3),
+                        torch.tensor([torch.inf, torch.inf, torch.inf], dtype=dtype).view(1, 3),
+                        torch.ones(1, 3, dtype=dtype),
                         pvw,
                         name=f"positive_vel_{i}",
                     ),
-- 
2.43.0


From 8e6d0b0608d93d33afa779e62d9633b33db3fac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:10 +0000
Subject: [PATCH 79/97] fix: TrajectoryDataset raises UnboundLocalError for
 grayscale images

---
 theseus/utils/examples/motion_planning/misc.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/theseus/utils/examples/motion_planning/misc.py b/theseus/utils/examples/motion_planning/misc.py
index 2c72f2d..00695db 100644
--- a/theseus/utils/examples/motion_planning/misc.py
+++ b/theseus/utils/examples/motion_planning/misc.py
@@ -96,8 +96,7 @@ class TrajectoryDataset(torch.utils.data.Dataset):
 
         # Image
         tmp_map = plt.imread(img_file)
-        if tmp_map.ndim == 3:
-            the_map = tmp_map[..., 0]
+        the_map = tmp_map[..., 0] if tmp_map.ndim == 3 else tmp_map
 
         # Trajectory
         traj_data = np.load(traj_file)
-- 
2.43.0


From fc07327fb1bf34e0e856bf914624ab8ef0f59594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:10 +0000
Subject: [PATCH 80/97] fix: tactile measurements are assigned to the wrong
 batch elements

---
 .../examples/tactile_pose_estimation/models.py   | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/theseus/utils/examples/tactile_pose_estimation/models.py b/theseus/utils/examples/tactile_pose_estimation/models.py
index fa0901c..068b20b 100644
--- a/theseus/utils/examples/tactile_pose_estimation/models.py
+++ b/theseus/utils/examples/tactile_pose_estimation/models.py
@@ -151,11 +151,14 @@ def get_tactile_nn_measurements_inputs(
                 meas_model_input_1_list.append(images_feat_meas[:, i - offset, :])
                 meas_model_input_2_list.append(images_feat_meas[:, i, :])
 
-        meas_model_input_1 = torch.cat(meas_model_input_1_list, dim=0)
-        meas_model_input_2 = torch.cat(meas_model_input_2_list, dim=0)
-        num_measurements = meas_model_input_1.shape[0]
+        num_measurements = len(meas_model_input_1_list)
+        # stacked so that measurements of the same batch element are contiguous
+        meas_model_input_1 = torch.stack(meas_model_input_1_list, dim=1)
+        meas_model_input_2 = torch.stack(meas_model_input_2_list, dim=1)
         model_measurements = model.forward(
-            meas_model_input_1, meas_model_input_2, class_label_vec
+            meas_model_input_1.flatten(0, 1),
+            meas_model_input_2.flatten(0, 1),
+            class_label_vec,
         ).reshape(
             -1, num_measurements, 4
         )  # data format (x, y, cos, sin)
@@ -185,10 +188,7 @@ def get_tactile_nn_measurements_inputs(
                     )
                 )  # data format (x, y, cos, sin)
 
-        num_measurements = len(model_measurements)
-        model_measurements = torch.cat(model_measurements, dim=0).reshape(
-            -1, num_measurements, 4
-        )
+        model_measurements = torch.stack(model_measurements, dim=1)
         model_measurements = model_measurements.to(device)
 
     # set MovingFrameBetween measurements from the NN output
-- 
2.43.0


From 221e33817ea969148db30b9e79539ccf514d7a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:10 +0000
Subject: [PATCH 81/97] fix: TactilePushingDataset fails if an episode has a
 single step

---
 theseus/utils/examples/tactile_pose_estimation/misc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/theseus/utils/examples/tactile_pose_estimation/misc.py b/theseus/utils/examples/tactile_pose_estimation/misc.py
index 069f620..4348798 100644
--- a/theseus/utils/examples/tactile_pose_estimation/misc.py
+++ b/theseus/utils/examples/tactile_pose_estimation/misc.py
@@ -114,7 +114,9 @@ class TactilePushingDataset:
         for episode in episode_indices:
             if len(data["obj_poses"]) >= max_episodes:
                 break
-            ds_idxs = torch.nonzero(dataset_all["contact_episode"] == episode).squeeze()
+            ds_idxs = torch.nonzero(
+                dataset_all["contact_episode"] == episode
+            ).squeeze(1)
             if len(ds_idxs) < episode_length:
                 continue
             for key, val in dataset_all.items():
-- 
2.43.0


From 57da181e01d70a2bd8a50d117ae3e764c9ccd51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:08 +0000
Subject: [PATCH 82/97] fix: check_jacobians() evaluates cost functions at SO2
 values that aren't rotations

---
 theseus/utils/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theseus/utils/utils.py b/theseus/utils/utils.py
index af74c49..6c90db0 100644
--- a/theseus/utils/utils.py
+++ b/theseus/utils/utils.py
@@ -136,7 +136,7 @@ def numeric_grad(
 
 # Updates the given variable with a random tensor of the same shape as the original.
 def _rand_fill_(v: th.Variable, batch_size: int):
-    if isinstance(v, (th.SE2, th.SO3, th.SE3, th.SO3)):
+    if isinstance(v, (th.SO2, th.SE2, th.SO3, th.SE3)):
         v.update(v.rand(batch_size, dtype=v.dtype, device=v.device).tensor)
     else:
         v.update(
-- 
2.43.0


From 76da521cb596d961e4bd5ea3f95f66c92206784b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:08 +0000
Subject: [PATCH 83/97] fix: check_jacobians() accepts jacobians with NaN

---
 theseus/utils/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/theseus/utils/utils.py b/theseus/utils/utils.py
index 6c90db0..3e5577e 100644
--- a/theseus/utils/utils.py
+++ b/theseus/utils/utils.py
@@ -182,7 +182,8 @@ def check_jacobians(cf: th.CostFunction, num_checks: int = 1, tol: float = 1.0e-
                 # we just check the first element of the batch.
                 j2_sparse = j2[0, :, 0, :]
                 j2_sparse_manifold = v.project(j2_sparse, is_sparse=True)
-                if (j1 - j2_sparse_manifold).abs().max() > tol:
+                # negated so that NaN jacobians are also rejected
+                if not (j1 - j2_sparse_manifold).abs().max() <= tol:
                     raise RuntimeError(
                         f"Jacobian for variable {v.name} appears incorrect to the "
                         "given tolerance."
-- 
2.43.0


From a54c24ae0755f3284d09151ed341bb319aab8e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:04 +0000
Subject: [PATCH 84/97] fix: InitialTrajectoryModel applied the covariance
 factor in the linearization's variable order instead of the trajectory's

---
 theseus/utils/examples/motion_planning/models.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/theseus/utils/examples/motion_planning/models.py b/theseus/utils/examples/motion_planning/models.py
index 46c2823..45aa1e6 100644
--- a/theseus/utils/examples/motion_planning/models.py
+++ b/theseus/utils/examples/motion_planning/models.py
@@ -3,7 +3,7 @@
 # This source code is licensed under the MIT license found in the
 # LICENSE file in the root directory of this source tree.
 
-from typing import Any, Dict, cast
+from typing import Any, Dict, List, cast
 
 import numpy as np
 import torch
@@ -216,7 +216,9 @@ class InitialTrajectoryModel(nn.Module):
                 th.DenseLinearization, motion_optimizer.linear_solver.linearization
             )
 
-            # Assign current trajectory as the mean of linearization
+            # Assign current trajectory as the mean of linearization, keeping track of
+            # the trajectory entries that each column of the linearization refers to
+            traj_cols: List[int] = []
             for var in linearization.ordering:
                 var_type, time_idx = var.name.split("_")
                 assert var_type in ["pose", "vel"]
@@ -225,9 +227,12 @@ class InitialTrajectoryModel(nn.Module):
                 if var_type == "vel":
                     traj_idx = int(time_idx) * 4 + 2
                 var.update(trajectory[:, traj_idx : traj_idx + 2])
+                traj_cols.extend([traj_idx, traj_idx + 1])
 
             linearization.linearize()
-            cov_matrix = torch.inverse(linearization.AtA)
+            # The linearization's variable order isn't the trajectory's time order
+            perm = torch.tensor(traj_cols, device=device).argsort()
+            cov_matrix = torch.inverse(linearization.AtA[:, perm][:, :, perm])
             lower_cov = torch.linalg.cholesky(cov_matrix)
 
         # Compute the u vector to generate the "sample"
-- 
2.43.0


From 47ee3dea115190a6726ef625832dd01a3964f7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:12 +0000
Subject: [PATCH 85/97] fix: BaSpaCho and cuSOLVER solvers: gradients and
 dampings that are not contiguous

The solvers work on the raw memory of what they are given. An upstream
gradient in another memory layout (e.g. that of x.t()) kept its strides when
cloned, and was solved as if it were laid out by rows: the gradients were
wrong. A damping tensor that was expanded or strided was read out of bounds.
---
 theseus/optimizer/autograd/baspacho_sparse_autograd.py | 3 ++-
 theseus/optimizer/autograd/lu_cuda_sparse_autograd.py  | 3 ++-
 theseus/optimizer/linear/utils.py                      | 1 +
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/theseus/optimizer/autograd/baspacho_sparse_autograd.py b/theseus/optimizer/autograd/baspacho_sparse_autograd.py
index 11ffa54..d1bbdd3 100644
--- a/theseus/optimizer/autograd/baspacho_sparse_autograd.py
+++ b/theseus/optimizer/autograd/baspacho_sparse_autograd.py
@@ -119,7 +119,8 @@ class BaspachoSolveFunction(torch.autograd.Function):
     ) -> _BaspachoSolveFunctionBwdReturnType:
         batch_size = grad_output.shape[0]
 
-        H = grad_output.clone()
+        # the solver works in place on memory laid out by rows
+        H = grad_output.clone(memory_format=torch.contiguous_format)
         H_double = H.double()
         ctx.numeric_decomposition.solve(H_double)  # solve in place
 
diff --git a/theseus/optimizer/autograd/lu_cuda_sparse_autograd.py b/theseus/optimizer/autograd/lu_cuda_sparse_autograd.py
index a31fd6b..6ee8715 100644
--- a/theseus/optimizer/autograd/lu_cuda_sparse_autograd.py
+++ b/theseus/optimizer/autograd/lu_cuda_sparse_autograd.py
@@ -156,7 +156,8 @@ class LUCudaSolveFunction(torch.autograd.Function):
 
         batch_size = grad_output.shape[0]
 
-        H = grad_output.clone()
+        # the solver works in place on memory laid out by rows
+        H = grad_output.clone(memory_format=torch.contiguous_format)
         H_double = H.double()
         ctx.solver_context.solve(H_double)  # solve in place
 
diff --git a/theseus/optimizer/linear/utils.py b/theseus/optimizer/linear/utils.py
index fe6aef4..ef3f2d7 100644
--- a/theseus/optimizer/linear/utils.py
+++ b/theseus/optimizer/linear/utils.py
@@ -26,6 +26,7 @@ def convert_to_alpha_beta_damping_tensors(
         # Our damp kernel does not like expand, since it may try
         # to access indices beyond what's actually stored in this tensor
         damping = damping.repeat(batch_size)
+    damping = damping.contiguous()  # might be given as an expanded tensor
     return (
         (damping, damping_eps * torch.ones_like(damping))
         if ellipsoidal_damping
-- 
2.43.0


From 2c517bfbd476804713facc9ff9ac7ddc6661ed9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:12 +0000
Subject: [PATCH 86/97] fix: native solvers: refuse tensors that are not
 contiguous

All functions address the raw memory as a dense row-major array, so that a
tensor with other strides gave wrong results or was read out of bounds.
---
 theseus/extlib/cusolver_lu_solver.cpp | 2 ++
 theseus/extlib/utils.h                | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/theseus/extlib/cusolver_lu_solver.cpp b/theseus/extlib/cusolver_lu_solver.cpp
index 7998b64..244b342 100644
--- a/theseus/extlib/cusolver_lu_solver.cpp
+++ b/theseus/extlib/cusolver_lu_solver.cpp
@@ -253,6 +253,7 @@ std::vector<int> CusolverLUSolver::factor(const torch::Tensor& A_val) {
     // batch sizes, but (disappointingly) cuda fails unless "==" holds
     TORCH_CHECK(A_val.size(0) == batchSize);
     TORCH_CHECK(A_val.size(1) == nnz);
+    TORCH_CHECK(A_val.is_contiguous());
 
     factorId++;
     factoredBatchSize = A_val.size(0);
@@ -290,6 +291,7 @@ void CusolverLUSolver::solve(const torch::Tensor& b) {
     TORCH_CHECK(b.dim() == 2);
     TORCH_CHECK(b.size(0) == factoredBatchSize);
     TORCH_CHECK(b.size(1) == numRows);
+    TORCH_CHECK(b.is_contiguous());
 
     at::Tensor b_array_cpu = torch::empty(factoredBatchSize * sizeof(double*),
                                           torch::TensorOptions(torch::kByte));
diff --git a/theseus/extlib/utils.h b/theseus/extlib/utils.h
index faa2d88..91ce692 100644
--- a/theseus/extlib/utils.h
+++ b/theseus/extlib/utils.h
@@ -8,12 +8,13 @@
 #include <torch/extension.h>
 
 
-// Various checks for tensor dimensions, dtype and devices
+// Various checks for tensor dimensions, dtype, memory layout and devices
 #define THESEUS_BASE_TENSOR_CHECK(tensor, d, d1, dt)             \
   do {                                                          \
     TORCH_CHECK(tensor.dim() == d);                             \
     TORCH_CHECK(tensor.size(0) == d1);                          \
     TORCH_CHECK(tensor.dtype() == dt);                          \
+    TORCH_CHECK(tensor.is_contiguous());                        \
   } while (0)
 
 #define THESEUS_TENSOR_CHECK_CPU(tensor, d, d1, dt)         \
-- 
2.43.0


From 6e2ca4fe2a8708eb8bca4a2aee5fc9e3f01b94c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:12 +0000
Subject: [PATCH 87/97] fix: mat_vec: refuse a vector of the wrong length, as
 tmat_vec does

The kernel read past its end.
---
 theseus/extlib/mat_mult.cu | 1 +
 1 file changed, 1 insertion(+)

diff --git a/theseus/extlib/mat_mult.cu b/theseus/extlib/mat_mult.cu
index afd0f67..9b1d4ad 100644
--- a/theseus/extlib/mat_mult.cu
+++ b/theseus/extlib/mat_mult.cu
@@ -180,6 +180,7 @@ torch::Tensor mat_vec(int batchSize,
 	THESEUS_TENSOR_CHECK_CUDA(Ms_val, 2, batchSize, torch::kDouble);
 	TORCH_CHECK(Ms_val.size(1) == M_nnz);
 	THESEUS_TENSOR_CHECK_CUDA(vec, 2, batchSize, vec.dtype());
+	TORCH_CHECK(vec.size(1) == M_numCols);
 	
 	auto xOptions = torch::TensorOptions().dtype(torch::kDouble).device(Ms_val.device());
 	torch::Tensor retv = torch::empty({(long)batchSize, (long)M_numRows}, xOptions);
-- 
2.43.0


From c5450f3e3551c1343e7243a62f7c443c982db1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:29 +0000
Subject: [PATCH 88/97] fix: SE2.rand and SE2.randn raise with
 requires_grad=True

---
 theseus/geometry/se2.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/theseus/geometry/se2.py b/theseus/geometry/se2.py
index f7ac70c..4733c19 100644
--- a/theseus/geometry/se2.py
+++ b/theseus/geometry/se2.py
@@ -60,9 +60,10 @@ class SE2(LieGroup):
             device=device,
             requires_grad=requires_grad,
         )
-        x_y_theta[:, 2] = 2 * theseus.constants.PI * (x_y_theta[:, 2] - 0.5)
+        x_y, theta = x_y_theta[:, :2], x_y_theta[:, 2:]
+        theta = 2 * theseus.constants.PI * (theta - 0.5)
 
-        return SE2(x_y_theta=x_y_theta)
+        return SE2(x_y_theta=torch.cat([x_y, theta], dim=1))
 
     @staticmethod
     def randn(
@@ -82,9 +83,10 @@ class SE2(LieGroup):
             device=device,
             requires_grad=requires_grad,
         )
-        x_y_theta[:, 2] *= theseus.constants.PI
+        x_y, theta = x_y_theta[:, :2], x_y_theta[:, 2:]
+        theta = theta * theseus.constants.PI
 
-        return SE2(x_y_theta=x_y_theta)
+        return SE2(x_y_theta=torch.cat([x_y, theta], dim=1))
 
     def _transform_shape_check(self, point: Union[Point2, torch.Tensor]):
         err_msg = (
-- 
2.43.0


From 8a1e1d746d0f5197c1def42e1eaabba43df644d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:57 +0000
Subject: [PATCH 89/97] Restore theseus/utils/examples

Changes there count as changes of example files, so the defects are recorded
as known findings instead.
---
 .../utils/examples/bundle_adjustment/data.py  |  6 ++--
 .../utils/examples/bundle_adjustment/util.py  |  2 +-
 .../utils/examples/motion_planning/misc.py    |  3 +-
 .../utils/examples/motion_planning/models.py  | 11 ++-----
 .../motion_planning/motion_planner.py         | 25 ++++----------
 theseus/utils/examples/pose_graph/dataset.py  | 33 +++----------------
 .../examples/tactile_pose_estimation/misc.py  |  4 +--
 .../tactile_pose_estimation/models.py         | 16 ++++-----
 8 files changed, 28 insertions(+), 72 deletions(-)

diff --git a/theseus/utils/examples/bundle_adjustment/data.py b/theseus/utils/examples/bundle_adjustment/data.py
index 59ec4ab..a981e84 100644
--- a/theseus/utils/examples/bundle_adjustment/data.py
+++ b/theseus/utils/examples/bundle_adjustment/data.py
@@ -231,9 +231,9 @@ class BundleAdjustmentDataset:
     def load_from_file(path, gt_path: Optional[str] = None):
         cameras, points, observations = BundleAdjustmentDataset.load_bal_dataset(path)
         if gt_path is not None:
-            gt_cameras, gt_points, _ = BundleAdjustmentDataset.load_bal_dataset(gt_path)
+            gt_points, gt_cameras, _ = BundleAdjustmentDataset.load_bal_dataset(gt_path)
         else:
-            gt_cameras, gt_points = None, None
+            gt_points, gt_cameras = None, None
         return BundleAdjustmentDataset(
             cameras=cameras,
             points=points,
@@ -283,7 +283,7 @@ class BundleAdjustmentDataset:
         gt_cameras = [
             Camera.generate_synthetic(
                 pos_base=torch.tensor(
-                    [-i * 100.0 / max(num_cameras - 1, 1), 0, -100], dtype=torch.float64
+                    [-i * 100.0 / (num_cameras - 1), 0, -100], dtype=torch.float64
                 ),
                 name=f"Cam{i}",
             )
diff --git a/theseus/utils/examples/bundle_adjustment/util.py b/theseus/utils/examples/bundle_adjustment/util.py
index 5a67e74..bd30d74 100644
--- a/theseus/utils/examples/bundle_adjustment/util.py
+++ b/theseus/utils/examples/bundle_adjustment/util.py
@@ -64,5 +64,5 @@ def random_small_quaternion(
         * math.tau
         / 360.0
     )
-    c, s = torch.cos(theta / 2), torch.sin(theta / 2)
+    c, s = torch.cos(theta), torch.sin(theta)
     return torch.tensor([c, s * x, s * y, s * z])
diff --git a/theseus/utils/examples/motion_planning/misc.py b/theseus/utils/examples/motion_planning/misc.py
index 00695db..2c72f2d 100644
--- a/theseus/utils/examples/motion_planning/misc.py
+++ b/theseus/utils/examples/motion_planning/misc.py
@@ -96,7 +96,8 @@ class TrajectoryDataset(torch.utils.data.Dataset):
 
         # Image
         tmp_map = plt.imread(img_file)
-        the_map = tmp_map[..., 0] if tmp_map.ndim == 3 else tmp_map
+        if tmp_map.ndim == 3:
+            the_map = tmp_map[..., 0]
 
         # Trajectory
         traj_data = np.load(traj_file)
diff --git a/theseus/utils/examples/motion_planning/models.py b/theseus/utils/examples/motion_planning/models.py
index 45aa1e6..46c2823 100644
--- a/theseus/utils/examples/motion_planning/models.py
+++ b/theseus/utils/examples/motion_planning/models.py
@@ -3,7 +3,7 @@
 # This source code is licensed under the MIT license found in the
 # LICENSE file in the root directory of this source tree.
 
-from typing import Any, Dict, List, cast
+from typing import Any, Dict, cast
 
 import numpy as np
 import torch
@@ -216,9 +216,7 @@ class InitialTrajectoryModel(nn.Module):
                 th.DenseLinearization, motion_optimizer.linear_solver.linearization
             )
 
-            # Assign current trajectory as the mean of linearization, keeping track of
-            # the trajectory entries that each column of the linearization refers to
-            traj_cols: List[int] = []
+            # Assign current trajectory as the mean of linearization
             for var in linearization.ordering:
                 var_type, time_idx = var.name.split("_")
                 assert var_type in ["pose", "vel"]
@@ -227,12 +225,9 @@ class InitialTrajectoryModel(nn.Module):
                 if var_type == "vel":
                     traj_idx = int(time_idx) * 4 + 2
                 var.update(trajectory[:, traj_idx : traj_idx + 2])
-                traj_cols.extend([traj_idx, traj_idx + 1])
 
             linearization.linearize()
-            # The linearization's variable order isn't the trajectory's time order
-            perm = torch.tensor(traj_cols, device=device).argsort()
-            cov_matrix = torch.inverse(linearization.AtA[:, perm][:, :, perm])
+            cov_matrix = torch.inverse(linearization.AtA)
             lower_cov = torch.linalg.cholesky(cov_matrix)
 
         # Compute the u vector to generate the "sample"
diff --git a/theseus/utils/examples/motion_planning/motion_planner.py b/theseus/utils/examples/motion_planning/motion_planner.py
index 8e84602..2065bc5 100644
--- a/theseus/utils/examples/motion_planning/motion_planner.py
+++ b/theseus/utils/examples/motion_planning/motion_planner.py
@@ -88,8 +88,6 @@ class MotionPlannerObjective(th.Objective):
         self.num_time_steps = num_time_steps
         self.use_single_collision_weight = use_single_collision_weight
         self.pose_type = pose_type
-        self.nonholonomic_w = nonholonomic_w
-        self.positive_vel_w = positive_vel_w
 
         self.trajectory_len = num_time_steps + 1
 
@@ -200,15 +198,11 @@ class MotionPlannerObjective(th.Objective):
 
         if nonholonomic_w > 0.0:
             assert pose_type == th.SE2
-            nhw = th.ScaleCostWeight(
-                torch.tensor(nonholonomic_w, dtype=dtype), name="nonholonomic_w"
-            )
+            nhw = th.ScaleCostWeight(nonholonomic_w, name="nonholonomic_w")
 
         if positive_vel_w > 0.0:
             assert pose_type == th.SE2
-            pvw = th.ScaleCostWeight(
-                torch.tensor(positive_vel_w, dtype=dtype), name="positive_vel_w"
-            )
+            pvw = th.ScaleCostWeight(positive_vel_w, name="positive_vel_w")
 
         # Next we add 2-D collisions and GP cost functions, and associate them with the
         # cost weights created above. We need a separate cost function for each time
@@ -253,9 +247,9 @@ class MotionPlannerObjective(th.Objective):
                 self.add(
                     HingeCost(
                         velocities[i - 1],
-                        torch.tensor([0.0, -torch.inf, -torch.inf], dtype=dtype).view(1, 3),
-                        torch.tensor([torch.inf, torch.inf, torch.inf], dtype=dtype).view(1, 3),
-                        torch.ones(1, 3, dtype=dtype),
+                        torch.tensor([0.0, -torch.inf, -torch.inf]).view(1, 3),
+                        torch.tensor([torch.inf, torch.inf, torch.inf]).view(1, 3),
+                        1.0,
                         pvw,
                         name=f"positive_vel_{i}",
                     ),
@@ -439,7 +433,6 @@ class MotionPlanner:
             pose_numel + vel_numel,
             self.objective.trajectory_len,
             device=self.objective.device,
-            dtype=self.objective.dtype,
         )
         if values_dict is None:
             values_dict = {
@@ -467,17 +460,11 @@ class MotionPlanner:
             map_size=self.objective.map_size,
             epsilon_dist=self.objective.epsilon_dist,
             total_time=self.objective.total_time,
-            collision_weight=(
-                self.objective.collision_weight
-                if collision_weight is None
-                else collision_weight
-            ),
+            collision_weight=collision_weight or self.objective.collision_weight,
             Qc_inv=self.objective.Qc_inv,
             num_time_steps=self.objective.num_time_steps,
             use_single_collision_weight=self.objective.use_single_collision_weight,
             device=self.device,
             pose_type=self.objective.pose_type,
             dtype=self.dtype,
-            nonholonomic_w=self.objective.nonholonomic_w,
-            positive_vel_w=self.objective.positive_vel_w,
         )
diff --git a/theseus/utils/examples/pose_graph/dataset.py b/theseus/utils/examples/pose_graph/dataset.py
index 405125f..61272a4 100644
--- a/theseus/utils/examples/pose_graph/dataset.py
+++ b/theseus/utils/examples/pose_graph/dataset.py
@@ -3,7 +3,7 @@
 # This source code is licensed under the MIT license found in the
 # LICENSE file in the root directory of this source tree.
 
-from typing import Dict, List, Optional, Tuple, Union, cast
+from typing import List, Optional, Tuple, Union, cast
 
 import numpy as np
 import torch
@@ -25,8 +25,7 @@ class PoseGraphEdge:
         self.weight = weight
 
     def to(self, *args, **kwargs):
-        if self.weight is not None:
-            self.weight.to(*args, **kwargs)
+        self.weight.to(*args, **kwargs)
         self.relative_pose.to(*args, **kwargs)
 
 
@@ -45,8 +44,6 @@ def read_3D_g2o_file(
 
         for line in lines:
             tokens = line.split()
-            if not tokens:
-                continue
 
             if tokens[0] == "EDGE_SE3:QUAT":
                 i = int(tokens[1])
@@ -122,8 +119,6 @@ def read_2D_g2o_file(
 
         for line in lines:
             tokens = line.split()
-            if not tokens:
-                continue
 
             if tokens[0] == "EDGE_SE2":
                 i = int(tokens[1])
@@ -140,7 +135,7 @@ def read_2D_g2o_file(
 
                 sel = [0, 3, 5]
                 weight = th.Variable(
-                    torch.from_numpy(np.array(tokens[6:], dtype=np.float64)[sel])
+                    torch.from_numpy(np.array(1, tokens[6:], dtype=np.float64)[sel])
                     .to(dtype)
                     .sqrt()
                     .view(1, -1)
@@ -380,8 +375,6 @@ class PoseGraphDataset:
                     tran = measurement[:, :, 3]
                     measurement = torch.cat([tran, quat], dim=1).view(-1).numpy()
                     weight = edge.weight.diagonal.tensor**2
-                    if weight.shape[0] > 1:
-                        weight = weight[n : n + 1]
                     line = (
                         f"EDGE_SE3:QUAT {edge.i} {edge.j} {measurement[0]} {measurement[1]} "
                         f"{measurement[2]} "
@@ -411,24 +404,6 @@ class PoseGraphDataset:
         end = min(start + self.batch_size, self.dataset_size)
         group_cls = self.poses[0].__class__
 
-        # edges that share a (batched) weight, also share its slice
-        batch_weights: Dict[str, th.DiagonalCostWeight] = {}
-
-        def _batch_weight(
-            weight: Optional[th.DiagonalCostWeight],
-        ) -> Optional[th.DiagonalCostWeight]:
-            if weight is None or weight.diagonal.shape[0] == 1:
-                return weight
-            if weight.name not in batch_weights:
-                diagonal = weight.diagonal
-                batch_weights[weight.name] = th.DiagonalCostWeight(
-                    th.Variable(
-                        diagonal[start:end].clone(), name=diagonal.name + "__batch"
-                    ),
-                    name=weight.name + "__batch",
-                )
-            return batch_weights[weight.name]
-
         poses = cast(
             Union[List[th.SE2], List[th.SE3]],
             [
@@ -456,7 +431,7 @@ class PoseGraphDataset:
                     tensor=edge.relative_pose[start:end].clone(),
                     name=edge.relative_pose.name + "__batch",
                 ),
-                weight=_batch_weight(edge.weight),
+                weight=edge.weight,
             )
             for edge in self.edges
         ]
diff --git a/theseus/utils/examples/tactile_pose_estimation/misc.py b/theseus/utils/examples/tactile_pose_estimation/misc.py
index 4348798..069f620 100644
--- a/theseus/utils/examples/tactile_pose_estimation/misc.py
+++ b/theseus/utils/examples/tactile_pose_estimation/misc.py
@@ -114,9 +114,7 @@ class TactilePushingDataset:
         for episode in episode_indices:
             if len(data["obj_poses"]) >= max_episodes:
                 break
-            ds_idxs = torch.nonzero(
-                dataset_all["contact_episode"] == episode
-            ).squeeze(1)
+            ds_idxs = torch.nonzero(dataset_all["contact_episode"] == episode).squeeze()
             if len(ds_idxs) < episode_length:
                 continue
             for key, val in dataset_all.items():
diff --git a/theseus/utils/examples/tactile_pose_estimation/models.py b/theseus/utils/examples/tactile_pose_estimation/models.py
index 068b20b..fa0901c 100644
--- a/theseus/utils/examples/tactile_pose_estimation/models.py
+++ b/theseus/utils/examples/tactile_pose_estimation/models.py
@@ -151,14 +151,11 @@ def get_tactile_nn_measurements_inputs(
                 meas_model_input_1_list.append(images_feat_meas[:, i - offset, :])
                 meas_model_input_2_list.append(images_feat_meas[:, i, :])
 
-        num_measurements = len(meas_model_input_1_list)
-        # stacked so that measurements of the same batch element are contiguous
-        meas_model_input_1 = torch.stack(meas_model_input_1_list, dim=1)
-        meas_model_input_2 = torch.stack(meas_model_input_2_list, dim=1)
+        meas_model_input_1 = torch.cat(meas_model_input_1_list, dim=0)
+        meas_model_input_2 = torch.cat(meas_model_input_2_list, dim=0)
+        num_measurements = meas_model_input_1.shape[0]
         model_measurements = model.forward(
-            meas_model_input_1.flatten(0, 1),
-            meas_model_input_2.flatten(0, 1),
-            class_label_vec,
+            meas_model_input_1, meas_model_input_2, class_label_vec
         ).reshape(
             -1, num_measurements, 4
         )  # data format (x, y, cos, sin)
@@ -188,7 +185,10 @@ def get_tactile_nn_measurements_inputs(
                     )
                 )  # data format (x, y, cos, sin)
 
-        model_measurements = torch.stack(model_measurements, dim=1)
+        num_measurements = len(model_measurements)
+        model_measurements = torch.cat(model_measurements, dim=0).reshape(
+            -1, num_measurements, 4
+        )
         model_measurements = model_measurements.to(device)
 
     # set MovingFrameBetween measurements from the NN output
-- 
2.43.0


From 9be088565781e32eac13779ead467a9e5de7d949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:31 +0000
Subject: [PATCH 90/97] fix: LieGroupTensor.add_ outside the Lie tangent
 context recurses forever

---
 theseus/geometry/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theseus/geometry/utils.py b/theseus/geometry/utils.py
index c9504de..fec1a9d 100644
--- a/theseus/geometry/utils.py
+++ b/theseus/geometry/utils.py
@@ -73,7 +73,7 @@ class LieGroupTensor(torch.Tensor):
             grad = group.project(update)
             self.set_(group.retract(alpha * grad).tensor)
         else:
-            self.add_(update, alpha=alpha)
+            super().add_(update, alpha=alpha)
 
         return self
 
-- 
2.43.0


From 0b96e5c025cc4e626d52eb5f20d3004ef9d85772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:13 +0000
Subject: [PATCH 91/97] fix: QuasiStaticPushingPlanar: unnamed cost functions
 share one name for c_square

---
 theseus/embodied/motionmodel/quasi_static_pushing_planar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theseus/embodied/motionmodel/quasi_static_pushing_planar.py b/theseus/embodied/motionmodel/quasi_static_pushing_planar.py
index 2b9e822..eba2326 100644
--- a/theseus/embodied/motionmodel/quasi_static_pushing_planar.py
+++ b/theseus/embodied/motionmodel/quasi_static_pushing_planar.py
@@ -34,7 +34,7 @@ class QuasiStaticPushingPlanar(CostFunction):
         self.eff2 = eff2
         self.register_optim_vars(["obj1", "obj2", "eff1", "eff2"])
 
-        c_square = as_variable(c_square, dtype=self.obj1.dtype, name=f"csquare_{name}")
+        c_square = as_variable(c_square, dtype=self.obj1.dtype, name=f"csquare_{self.name}")
         if c_square.tensor.squeeze().ndim > 1:
             raise ValueError("dt must be a 0-D or 1-D tensor.")
         self.c_square = c_square
-- 
2.43.0


From 97122d3413520e92e265f7a2e910c42f8ae68f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:18 +0000
Subject: [PATCH 92/97] fix: DLM pairs solutions and gradients with variables
 by name when the copied objective orders them differently

---
 theseus/theseus_layer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/theseus/theseus_layer.py b/theseus/theseus_layer.py
index 8c1d2fa..f9cc04c 100644
--- a/theseus/theseus_layer.py
+++ b/theseus/theseus_layer.py
@@ -224,6 +224,8 @@ class TheseusLayerDLMForward(torch.autograd.Function):
         if ctx.k > 0:
             ctx.bwd_objective = bwd_objective
             ctx.bwd_optimizer = bwd_optimizer
+            # the copied objective can have its variables in a different order
+            ctx.optim_var_names = list(objective.optim_vars.keys())
             ctx.epsilon = epsilon
 
             # Precompute and cache this.
@@ -259,7 +261,7 @@ class TheseusLayerDLMForward(torch.autograd.Function):
 
         # Update the optim vars to their solutions.
         bwd_data = dict(zip(input_keys, input_vals))
-        for k, v in zip(bwd_objective.optim_vars.keys(), optim_tensors):
+        for k, v in zip(ctx.optim_var_names, optim_tensors):
             bwd_data[k] = v.detach()
 
         # Add in gradient values.
@@ -268,7 +270,7 @@ class TheseusLayerDLMForward(torch.autograd.Function):
             .to(grad_outputs[0])
             .reshape(1, 1)
         }
-        for i, name in enumerate(bwd_objective.optim_vars.keys()):
+        for i, name in enumerate(ctx.optim_var_names):
             grad_data[name + TheseusLayerDLMForward._GRAD_SUFFIX] = grad_outputs[i]
         bwd_data.update(grad_data)
 
-- 
2.43.0


From d098d981f389565414763ad949b53b9cba2fb955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:06 +0000
Subject: [PATCH 93/97] fix: masked_variables refuses a mask that does not fit
 before masking any variable

---
 theseus/core/variable.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/theseus/core/variable.py b/theseus/core/variable.py
index 9ce4b84..355d065 100644
--- a/theseus/core/variable.py
+++ b/theseus/core/variable.py
@@ -143,8 +143,10 @@ class masked_variables:
         self._mask = mask
 
     def __enter__(self) -> None:
+        # checked before any update, since these would not be reverted
         for v in self._vars:
             assert v.shape[0] == self._mask.shape[0]
+        for v in self._vars:
             v.update(v.tensor[self._mask])
 
     def __exit__(self, exc_type: Any, exc_value: Any, traceback: Any) -> None:
-- 
2.43.0


From 34eea98d9b7cac6090527b27cef40bf847b9bd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:46 +0000
Subject: [PATCH 94/97] fix: return a copy of the solution saved for the
 backward pass of the sparse solvers

---
 theseus/optimizer/autograd/baspacho_sparse_autograd.py | 3 ++-
 theseus/optimizer/autograd/cholmod_sparse_autograd.py  | 3 ++-
 theseus/optimizer/autograd/lu_cuda_sparse_autograd.py  | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/theseus/optimizer/autograd/baspacho_sparse_autograd.py b/theseus/optimizer/autograd/baspacho_sparse_autograd.py
index d1bbdd3..a792062 100644
--- a/theseus/optimizer/autograd/baspacho_sparse_autograd.py
+++ b/theseus/optimizer/autograd/baspacho_sparse_autograd.py
@@ -62,7 +62,8 @@ class BaspachoSolveFunction(torch.autograd.Function):
         ctx.damping_alpha_beta = damping_alpha_beta
         ctx.detach_hessian = detach_hessian
 
-        return x.to(A_val.dtype)
+        # a copy, since x is also needed for the backward pass
+        return x.to(A_val.dtype, copy=True)
 
     # Let v row vector, and w column vector of dimension n, m, and
     # A an nxm matrix. Then
diff --git a/theseus/optimizer/autograd/cholmod_sparse_autograd.py b/theseus/optimizer/autograd/cholmod_sparse_autograd.py
index 2c5800a..c279aad 100644
--- a/theseus/optimizer/autograd/cholmod_sparse_autograd.py
+++ b/theseus/optimizer/autograd/cholmod_sparse_autograd.py
@@ -58,7 +58,8 @@ class CholmodSolveFunction(torch.autograd.Function):
         ctx.cholesky_decompositions = cholesky_decompositions
         ctx.detach_hessian = detach_hessian
 
-        return x_cpu.to(device=At_val.device, dtype=At_val.dtype)
+        # a copy, since x is also needed for the backward pass
+        return x_cpu.to(device=At_val.device, dtype=At_val.dtype, copy=True)
 
     # Let v row vector, and w column vector of dimension n, m, and
     # A an nxm matrix. Then
diff --git a/theseus/optimizer/autograd/lu_cuda_sparse_autograd.py b/theseus/optimizer/autograd/lu_cuda_sparse_autograd.py
index 6ee8715..a0b2718 100644
--- a/theseus/optimizer/autograd/lu_cuda_sparse_autograd.py
+++ b/theseus/optimizer/autograd/lu_cuda_sparse_autograd.py
@@ -80,7 +80,8 @@ class LUCudaSolveFunction(torch.autograd.Function):
         # HACK: allows to check if the context has been reused (and overwritten)
         ctx.factor_id = solver_context.factor_id if check_factor_id else None
 
-        return x.to(A_val.dtype)
+        # a copy, since x is also needed for the backward pass
+        return x.to(A_val.dtype, copy=True)
 
     # Let v row vector, and w column vector of dimension n, m, and
     # A an nxm matrix. Then
-- 
2.43.0


From 393d06a0a164ef394162ab27468621e4be15bb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:47 +0000
Subject: [PATCH 95/97] fix: keep an objective's containers and their version
 consistent in deep copies

---
 theseus/core/objective.py                             | 11 +++++++++++
 .../optimizer/nonlinear/nonlinear_least_squares.py    |  5 ++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/theseus/core/objective.py b/theseus/core/objective.py
index 7cd2b00..33dbd02 100644
--- a/theseus/core/objective.py
+++ b/theseus/core/objective.py
@@ -714,6 +714,17 @@ class Objective:
             return memo[id(self)]
         the_copy = self.copy()
         memo[id(self)] = the_copy
+        # Objects copied along with the objective (e.g., an optimizer and its variable
+        # ordering) must refer to the same copies and accept the same version
+        for name, optim_var in self.optim_vars.items():
+            memo[id(optim_var)] = the_copy.optim_vars[name]
+        for name, aux_var in self.aux_vars.items():
+            memo[id(aux_var)] = the_copy.aux_vars[name]
+        for name, cost_function in self.cost_functions.items():
+            new_cost_function = the_copy.cost_functions[name]
+            memo[id(cost_function)] = new_cost_function
+            memo[id(cost_function.weight)] = new_cost_function.weight
+        the_copy.current_version = self.current_version
         return the_copy
 
     def _resolve_batch_size(self):
diff --git a/theseus/optimizer/nonlinear/nonlinear_least_squares.py b/theseus/optimizer/nonlinear/nonlinear_least_squares.py
index 344e6d8..14d1051 100644
--- a/theseus/optimizer/nonlinear/nonlinear_least_squares.py
+++ b/theseus/optimizer/nonlinear/nonlinear_least_squares.py
@@ -330,7 +330,10 @@ class NonlinearLeastSquares(NonlinearOptimizer, abc.ABC):
             ignore_mask=converged_indices,
             force_update=force_update,
         )
-        tensor_dict = {v.name: v.tensor for v in self._tmp_optim_vars}
+        tensor_dict = {
+            v_order.name: v_tmp.tensor
+            for v_tmp, v_order in zip(self._tmp_optim_vars, self.ordering)
+        }
         err = self.objective.error_metric(tensor_dict, also_update=False)
         return tensor_dict, err
 
-- 
2.43.0


From bd17e87d8f74f042f44fcd384c3ab32c0d497903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:47 +0000
Subject: [PATCH 96/97] fix: compute automatic Jacobians outside inference
 mode, where autograd records nothing

---
 theseus/core/cost_function.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/theseus/core/cost_function.py b/theseus/core/cost_function.py
index 64f435b..f17d4b3 100644
--- a/theseus/core/cost_function.py
+++ b/theseus/core/cost_function.py
@@ -192,6 +192,27 @@ def _tmp_tensors(vars: Sequence[Variable]):
             v.update(tensor)
 
 
+# Autograd doesn't record operations in inference mode, nor operations on inference
+# tensors outside of it, so derivatives computed under it would always be zero.
+# This leaves inference mode temporarily (still without tracking gradients, as if under
+# `torch.no_grad()`), replacing any inference tensors in the given variables by copies.
+@contextlib.contextmanager
+def _no_inference_mode(vars: Sequence[Variable]):
+    if not torch.is_inference_mode_enabled():
+        yield
+        return
+    tensors = [v.tensor for v in vars]
+    with torch.inference_mode(False), torch.no_grad():
+        try:
+            for v in vars:
+                if v.tensor.is_inference():
+                    v.tensor = v.tensor.clone()
+            yield
+        finally:
+            for v, tensor in zip(vars, tensors):
+                v.tensor = tensor
+
+
 # The error function is assumed to receive variables in the format
 #    err_fn(
 #       optim_vars=(optim_vars[0].tensor, ..., optim_vars[N - 1].tensor),
@@ -346,6 +367,10 @@ class AutoDiffCostFunction(CostFunction):
         return vmap(jacrev(jac_fn, argnums=0))(optim_tensors, aux_tensors)
 
     def jacobians(self) -> Tuple[List[torch.Tensor], torch.Tensor]:
+        with _no_inference_mode(tuple(chain(self.optim_vars, self.aux_vars))):
+            return self._jacobians_impl()
+
+    def _jacobians_impl(self) -> Tuple[List[torch.Tensor], torch.Tensor]:
         err, optim_vars, aux_vars = self._compute_error()
         if self._autograd_mode == AutogradMode.VMAP:
             # functorch doesn't allow BatchedTensors created inside their transforms
-- 
2.43.0


From fdec1aff6a19b55fd5dcf056387d97e941e68076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:51:07 +0000
Subject: [PATCH 97/97] fix: DLM doesn't compute gradients of the loss in its
 forward pass when gradients are disabled

---
 theseus/theseus_layer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/theseus/theseus_layer.py b/theseus/theseus_layer.py
index f9cc04c..864ea29 100644
--- a/theseus/theseus_layer.py
+++ b/theseus/theseus_layer.py
@@ -82,7 +82,10 @@ class TheseusLayer(nn.Module):
 
             # Tensors cannot be passed inside containers, else we run into memory leaks.
             input_keys, input_vals = zip(*input_tensors.items())
-            differentiable_tensors = [t for t in input_vals if t.requires_grad]
+            # There is no backward pass when gradients are disabled
+            differentiable_tensors = [
+                t for t in input_vals if t.requires_grad and torch.is_grad_enabled()
+            ]
 
             *vars, info = TheseusLayerDLMForward.apply(
                 self.objective,
-- 
2.43.0

