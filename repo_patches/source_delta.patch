From 736b6db66a55a614e0864eb7bf9f35dc984c6a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:51 +0000
Subject: [PATCH 01/17] fix: update slices of batched pytrees when the update
 start index is scalar

update_by_slice_in_dim mapped both start indices over the batch dimensions of
inputs_start_idx, so stepping a batched state with a batched timestep raised
in vmap because the update start index is the scalar 0.
---
 waymax/datatypes/operations.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/waymax/datatypes/operations.py b/waymax/datatypes/operations.py
index dc57cd7..a1fe2e5 100644
--- a/waymax/datatypes/operations.py
+++ b/waymax/datatypes/operations.py
@@ -158,6 +158,11 @@ def update_by_slice_in_dim(
 
   if updates_start_idx is None:
     updates_start_idx = inputs_start_idx
+  elif getattr(inputs_start_idx, 'shape', ()):
+    # Both indices are mapped over the batch dimensions of inputs_start_idx.
+    updates_start_idx = jnp.broadcast_to(
+        updates_start_idx, inputs_start_idx.shape
+    )
 
   def _update(source, update, inputs_start_idx, updates_start_idx):
     if slice_size is not None:
-- 
2.43.0


From 3904dfe96cb86c8e2ace798a6757fa4063890ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:12 +0000
Subject: [PATCH 02/17] fix: clip the heading change of inferred delta actions
 to the action spec

---
 waymax/dynamics/delta.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/waymax/dynamics/delta.py b/waymax/dynamics/delta.py
index b70a80b..533d657 100644
--- a/waymax/dynamics/delta.py
+++ b/waymax/dynamics/delta.py
@@ -114,7 +114,11 @@ class DeltaGlobal(abstract_dynamics.DynamicsModel):
         self.action_spec().minimum[1],
         self.action_spec().maximum[1],
     )
-    yaw = geometry.wrap_yaws(action[..., 2])
+    yaw = jnp.clip(
+        geometry.wrap_yaws(action[..., 2]),
+        self.action_spec().minimum[2],
+        self.action_spec().maximum[2],
+    )
     return jnp.stack([x, y, yaw], axis=-1)
 
   def inverse(
-- 
2.43.0


From db3172b86b92c419be93c1bd9cc5e8f7df00bc4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:34 +0000
Subject: [PATCH 03/17] fix: reject discretizer limits and bins whose shapes
 differ

---
 waymax/dynamics/discretizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/waymax/dynamics/discretizer.py b/waymax/dynamics/discretizer.py
index b7e7add..052142a 100644
--- a/waymax/dynamics/discretizer.py
+++ b/waymax/dynamics/discretizer.py
@@ -47,7 +47,7 @@ class Discretizer:
       bins: Number of bins for the different vector elements to discretize of
         shape (num_vector_elements,).
     """
-    if min_value.shape != max_value.shape and min_value.shape != bins.shape:
+    if min_value.shape != max_value.shape or min_value.shape != bins.shape:
       raise ValueError('Shapes do not match.')
     self._mins = min_value
     self._maxs = max_value
-- 
2.43.0


From ccbfab61f3dca7c4655506f31d117044c68849f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:06 +0000
Subject: [PATCH 04/17] fix: keep the discretizer's grid shape concrete so that
 discretizing can be jitted

---
 waymax/dynamics/discretizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/waymax/dynamics/discretizer.py b/waymax/dynamics/discretizer.py
index 052142a..f6b4b0a 100644
--- a/waymax/dynamics/discretizer.py
+++ b/waymax/dynamics/discretizer.py
@@ -18,6 +18,7 @@ import functools
 from dm_env import specs
 import jax
 import jax.numpy as jnp
+import numpy as np
 
 from waymax import config as _config
 from waymax import datatypes
@@ -75,7 +76,7 @@ class Discretizer:
     ).astype(jnp.int32)
     indices_1d = jnp.ravel_multi_index(  # pytype: disable=wrong-arg-types  # jnp-type
         jnp.split(indices_nd, self._bins.shape[0], -1),
-        self._bins + 1,
+        np.asarray(self._bins) + 1,
         mode='clip',
     )
     return indices_1d
-- 
2.43.0


From 764d3ddb392c1ca9947834d75487d5cf6f27b7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:20 +0000
Subject: [PATCH 05/17] fix: keep the reduced axis of masked_mean so that any
 axis can be averaged

---
 waymax/datatypes/operations.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/waymax/datatypes/operations.py b/waymax/datatypes/operations.py
index a1fe2e5..2e9a4d7 100644
--- a/waymax/datatypes/operations.py
+++ b/waymax/datatypes/operations.py
@@ -283,9 +283,9 @@ def masked_mean(
   Returns:
     Array representing the mean of the array of all valid values.
   """
-  num_valid = jnp.sum(valid.astype(jnp.float32), axis=axis)
-  masked_sum = jnp.sum(x, where=valid, axis=axis)
+  num_valid = jnp.sum(valid.astype(jnp.float32), axis=axis, keepdims=True)
+  masked_sum = jnp.sum(x, where=valid, axis=axis, keepdims=True)
   mean = masked_sum / num_valid
   mean = jnp.where(num_valid == 0, invalid_value, mean)
   # Broadcast back to the original shape.
-  return jnp.broadcast_to(mean[..., None], x.shape)
+  return jnp.broadcast_to(mean, x.shape)
-- 
2.43.0


From d6a9d899242c184e204329b4f554d5cbdebc57f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:52 +0000
Subject: [PATCH 06/17] fix: keep roadgraph ids exact when filtering the
 nearest points

---
 waymax/datatypes/roadgraph.py | 30 +++---------------------------
 1 file changed, 3 insertions(+), 27 deletions(-)

diff --git a/waymax/datatypes/roadgraph.py b/waymax/datatypes/roadgraph.py
index 5a24223..5f6f8e2 100644
--- a/waymax/datatypes/roadgraph.py
+++ b/waymax/datatypes/roadgraph.py
@@ -201,33 +201,9 @@ def filter_topk_roadgraph_points(
     valid_distances = jnp.where(roadgraph.valid, distances, float('inf'))
     _, top_idx = jax.lax.top_k(-valid_distances, topk)
 
-    stacked = jnp.stack(
-        [
-            roadgraph.x,
-            roadgraph.y,
-            roadgraph.z,
-            roadgraph.dir_x,
-            roadgraph.dir_y,
-            roadgraph.dir_z,
-            roadgraph.types,
-            roadgraph.ids,
-            roadgraph.valid,
-        ],
-        axis=-1,
-        dtype=jnp.float32,
-    )
-    filtered = jnp.take_along_axis(stacked, top_idx[..., None], axis=-2)
-
-    return RoadgraphPoints(
-        x=filtered[..., 0],
-        y=filtered[..., 1],
-        z=filtered[..., 2],
-        dir_x=filtered[..., 3],
-        dir_y=filtered[..., 4],
-        dir_z=filtered[..., 5],
-        types=filtered[..., 6].astype(jnp.int32),
-        ids=filtered[..., 7].astype(jnp.int32),
-        valid=filtered[..., 8].astype(jnp.bool_),
+    # Gathers each field in its own dtype: ids are not representable in float32.
+    return jax.tree_util.tree_map(
+        lambda x: jnp.take_along_axis(x, top_idx, axis=-1), roadgraph
     )
   else:
     return roadgraph
-- 
2.43.0


From 7d18b9e0c5ae9cec374df687dda5f3c097b46562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:52 +0000
Subject: [PATCH 07/17] fix: flag every observer as the ego of its own
 observation

---
 waymax/datatypes/observation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/waymax/datatypes/observation.py b/waymax/datatypes/observation.py
index 8836305..55309a8 100644
--- a/waymax/datatypes/observation.py
+++ b/waymax/datatypes/observation.py
@@ -568,7 +568,7 @@ def observation_from_state(
   # state.shape + (num_obj, num_obj)
   target_shape = state.shape + (num_obj, num_obj)
   is_ego = jax.lax.broadcast_in_dim(
-      jnp.diag(jnp.arange(num_obj)) == 1,
+      jnp.eye(num_obj, dtype=jnp.bool_),
       shape=target_shape,
       broadcast_dimensions=(len(target_shape) - 2, len(target_shape) - 1),
   )
-- 
2.43.0


From 410e6d059f362dc0ab35ef282eeae0a064abad89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:49 +0000
Subject: [PATCH 08/17] fix: apply metrics without an object dimension to every
 object of their own scene in rewards

---
 waymax/rewards/linear_combination_reward.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/waymax/rewards/linear_combination_reward.py b/waymax/rewards/linear_combination_reward.py
index 2bf1d7e..7c8eaea 100644
--- a/waymax/rewards/linear_combination_reward.py
+++ b/waymax/rewards/linear_combination_reward.py
@@ -55,6 +55,9 @@ class LinearCombinationReward(abstract_reward_function.AbstractRewardFunction):
     reward = jnp.zeros_like(agent_mask)
     for reward_metric_name, reward_weight in self._config.rewards.items():
       metric_all_agents = all_metrics[reward_metric_name].masked_value()
+      if metric_all_agents.ndim < agent_mask.ndim:
+        # Metrics of the SDC alone have no object dimension.
+        metric_all_agents = metric_all_agents[..., jnp.newaxis]
       metric = metric_all_agents * agent_mask
       reward += metric * reward_weight
 
-- 
2.43.0


From ced65468921d68b017f437ecb03efcab19326d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:49 +0000
Subject: [PATCH 09/17] fix: give rewards float values when no metric is
 configured

---
 waymax/rewards/linear_combination_reward.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/waymax/rewards/linear_combination_reward.py b/waymax/rewards/linear_combination_reward.py
index 7c8eaea..5759fb1 100644
--- a/waymax/rewards/linear_combination_reward.py
+++ b/waymax/rewards/linear_combination_reward.py
@@ -52,7 +52,7 @@ class LinearCombinationReward(abstract_reward_function.AbstractRewardFunction):
     del action  # unused
     all_metrics = metrics.run_metrics(simulator_state, self._metrics_config)
 
-    reward = jnp.zeros_like(agent_mask)
+    reward = jnp.zeros_like(agent_mask, dtype=jnp.float32)
     for reward_metric_name, reward_weight in self._config.rewards.items():
       metric_all_agents = all_metrics[reward_metric_name].masked_value()
       if metric_all_agents.ndim < agent_mask.ndim:
-- 
2.43.0


From d5e9d22cb83d3eed87b32d91423f0b2ce0a3a9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:49 +0000
Subject: [PATCH 10/17] fix: tile the validity of the planning agent's action
 per object and pass on allow_new_objects

---
 waymax/env/planning_agent_environment.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/waymax/env/planning_agent_environment.py b/waymax/env/planning_agent_environment.py
index d547a30..653ba14 100644
--- a/waymax/env/planning_agent_environment.py
+++ b/waymax/env/planning_agent_environment.py
@@ -100,7 +100,7 @@ class PlanningAgentDynamics(_dynamics.DynamicsModel):
         action.data[..., jnp.newaxis, :], trajectory.num_objects, axis=-2
     )
     tiled_valid = jnp.repeat(
-        action.valid[..., jnp.newaxis], trajectory.num_objects, axis=-1
+        action.valid[..., jnp.newaxis, :], trajectory.num_objects, axis=-2
     )
     tiled_action = datatypes.Action(data=tiled_action_data, valid=tiled_valid)
     tiled_action.validate()
@@ -110,6 +110,7 @@ class PlanningAgentDynamics(_dynamics.DynamicsModel):
         log_trajectory,
         is_controlled,
         timestep,
+        allow_new_objects,
     )
 
   def inverse(
-- 
2.43.0


From 1c132d7e5fb9f7ebba8edb963339ff44c8c92fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:49 +0000
Subject: [PATCH 11/17] fix: mask the kinematic infeasibility of the first step
 scene by scene in the planning environment

---
 waymax/env/planning_agent_environment.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/waymax/env/planning_agent_environment.py b/waymax/env/planning_agent_environment.py
index 653ba14..39e2eb8 100644
--- a/waymax/env/planning_agent_environment.py
+++ b/waymax/env/planning_agent_environment.py
@@ -310,7 +310,10 @@ class PlanningAgentEnvironment(abstract_environment.AbstractEnvironment):
       # necessarily kinematically feasible, so we choose to ignore the first
       # state's sdc_kim value and set it to 0 (kinematically feasible) because
       # the action is not chosen by the actor and is thus not clipped.
-      kim_metric_valid = state.timestep > self.config.init_steps - 1
+      # Shape: (..., 1).
+      kim_metric_valid = jnp.expand_dims(
+          state.timestep > self.config.init_steps - 1, axis=-1
+      )
       kim_metric = metric_dict['kinematic_infeasibility']
       kim_metric = kim_metric.replace(
           value=kim_metric.value * kim_metric_valid,
-- 
2.43.0


From f93e093d687eeaeb5260fc06f6a8570ddc043413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:49 +0000
Subject: [PATCH 12/17] fix: give the sim agents of make_sdc_dm_environment
 their (empty) parameters

---
 waymax/env/wrappers/dm_env_wrapper.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/waymax/env/wrappers/dm_env_wrapper.py b/waymax/env/wrappers/dm_env_wrapper.py
index 6c89bc1..b0ace99 100644
--- a/waymax/env/wrappers/dm_env_wrapper.py
+++ b/waymax/env/wrappers/dm_env_wrapper.py
@@ -218,5 +218,7 @@ def make_sdc_dm_environment(
       dynamics_model=dynamics_model,
       config=env_config,
       sim_agent_actors=sim_agent_actors,
+      # Sim agents created from configs have no parameters.
+      sim_agent_params=[{} for _ in sim_agent_actors],
   )
   return DMEnvWrapper(dataset_iterator, single_env)
-- 
2.43.0


From b6aa682132aa0213d077cfc8820a7f1dbbe284d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:04 +0000
Subject: [PATCH 13/17] fix: DMEnvWrapper gives the reward function the Action
 that is applied

The wrapped environment's reward takes a datatypes.Action; the wrapper passed
the raw array it was called with, so rewards reading action.data or
action.valid failed.
---
 waymax/env/wrappers/dm_env_wrapper.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/waymax/env/wrappers/dm_env_wrapper.py b/waymax/env/wrappers/dm_env_wrapper.py
index b0ace99..953ee65 100644
--- a/waymax/env/wrappers/dm_env_wrapper.py
+++ b/waymax/env/wrappers/dm_env_wrapper.py
@@ -114,10 +114,6 @@ class DMEnvWrapper(dm_env.Environment):
     if self._done:
       raise errors.EpisodeAlreadyFinishedError()
 
-    # Calculate the reward on the simulation step before updating the state with
-    # the given action.
-    reward = self._jitted_stateless_env_reward(self._cur_state, action)
-
     action = jnp.asarray(action)
     # Reshape the action to what the underlying environment wants.
     action = jnp.reshape(
@@ -129,6 +125,9 @@ class DMEnvWrapper(dm_env.Environment):
         data=action, valid=jnp.ones_like(action[..., 0:1], dtype=jnp.bool_)
     )
     action.validate()
+    # Calculate the reward on the simulation step before updating the state with
+    # the given action.
+    reward = self._jitted_stateless_env_reward(self._cur_state, action)
     self._cur_state = self._jitted_stateless_env_step(self._cur_state, action)
 
     termination = self._stateless_env.termination(self._cur_state)
-- 
2.43.0


From bd8ea5fc8a7e64eb1630f09d1cddb9fbc3e2f5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:20 +0000
Subject: [PATCH 14/17] fix: do not read trajectory and traffic light entries
 flagged -1 as valid

---
 waymax/dataloader/womd_factories.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/waymax/dataloader/womd_factories.py b/waymax/dataloader/womd_factories.py
index 24c05e6..ea5e440 100644
--- a/waymax/dataloader/womd_factories.py
+++ b/waymax/dataloader/womd_factories.py
@@ -223,7 +223,8 @@ def trajectory_from_womd_dict(
   """
   prefix = f'state/{time_key}'
 
-  valid = jnp.asarray(example[f'{prefix}/valid'], jnp.bool_)
+  # Missing entries are flagged by -1.
+  valid = jnp.asarray(example[f'{prefix}/valid'] == 1, jnp.bool_)
   length = jnp.asarray(example[f'{prefix}/length'], jnp.float32)
   length = operations.masked_mean(length, valid=valid, axis=-1)
   width = jnp.asarray(example[f'{prefix}/width'], jnp.float32)
@@ -282,7 +283,8 @@ def traffic_lights_from_womd_dict(
 
   state = jnp.asarray(example[f'{prefix_time_key}/state'], dtype=jnp.int32)
   lane_ids = jnp.asarray(example[f'{prefix_time_key}/id'], dtype=jnp.int32)
-  valid = jnp.asarray(example[f'{prefix_time_key}/valid'], dtype=jnp.bool_)
+  # Missing entries are flagged by -1.
+  valid = jnp.asarray(example[f'{prefix_time_key}/valid'] == 1, dtype=jnp.bool_)
 
   origin = traffic_lights.TrafficLights(
       x=x, y=y, z=z, state=state, lane_ids=lane_ids, valid=valid
-- 
2.43.0


From 030e133f1d960e608adb0d929b8128b289ecf0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:20 +0000
Subject: [PATCH 15/17] fix: do not truncate state/which_time to the maximum
 number of objects

---
 waymax/dataloader/womd_dataloader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/waymax/dataloader/womd_dataloader.py b/waymax/dataloader/womd_dataloader.py
index e851294..7756a41 100644
--- a/waymax/dataloader/womd_dataloader.py
+++ b/waymax/dataloader/womd_dataloader.py
@@ -71,8 +71,11 @@ def preprocess_womd_example(
 
   if max_num_objects is not None:
     # TODO(b/246965197) check sdc included if it is needed.
+    # `state/which_time` has a time axis, but no object axis.
     return {
-        k: v[:max_num_objects] if k.startswith('state/') else v
+        k: v[:max_num_objects]
+        if k.startswith('state/') and k != 'state/which_time'
+        else v
         for k, v in processed.items()
     }
   else:
-- 
2.43.0


From 73a00e31e1a4e6b46ce1c3a77df105c97e23c2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:18 +0000
Subject: [PATCH 16/17] fix: action_spec of the multi-agent environment accepts
 scalar bounds

StateDynamics gives its (infinite) bounds as scalars, so
BaseEnvironment.action_spec, and with it every step of a DMEnvWrapper over
such an environment, raised an IndexError.
---
 waymax/env/base_environment.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/waymax/env/base_environment.py b/waymax/env/base_environment.py
index afcc90d..57abef7 100644
--- a/waymax/env/base_environment.py
+++ b/waymax/env/base_environment.py
@@ -168,17 +168,12 @@ class BaseEnvironment(abstract_environment.AbstractEnvironment):
     # Dynamics model class defines specs for a single agent.
     # Need to expand it to multiple objects.
     single_agent_spec = self.dynamics.action_spec()  # rank 1
+    data_shape = (self.config.max_num_objects,) + single_agent_spec.shape
     data_spec = specs.BoundedArray(
-        shape=(self.config.max_num_objects,) + single_agent_spec.shape,
+        shape=data_shape,
         dtype=single_agent_spec.dtype,
-        minimum=jnp.tile(
-            single_agent_spec.minimum[jnp.newaxis, :],
-            [self.config.max_num_objects, 1],
-        ),
-        maximum=jnp.tile(
-            single_agent_spec.maximum[jnp.newaxis, :],
-            [self.config.max_num_objects, 1],
-        ),
+        minimum=jnp.broadcast_to(single_agent_spec.minimum, data_shape),
+        maximum=jnp.broadcast_to(single_agent_spec.maximum, data_shape),
     )
     valid_spec = specs.Array(
         shape=(self.config.max_num_objects, 1), dtype=jnp.bool_
-- 
2.43.0


From 8e1b92e855d69d2a43bbde66e9815474769d6a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:00 +0000
Subject: [PATCH 17/17] fix: kinematic infeasibility of batched states with a
 timestep per scene

States batched by the data loader have a timestep of the shape of the batch;
compute_inverse indexed with jax.lax.dynamic_slice_in_dim, which takes scalar
indices only, so KinematicsInfeasibilityMetric.compute raised a TypeError.
---
 waymax/dynamics/bicycle_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/waymax/dynamics/bicycle_model.py b/waymax/dynamics/bicycle_model.py
index 347c143..000a172 100644
--- a/waymax/dynamics/bicycle_model.py
+++ b/waymax/dynamics/bicycle_model.py
@@ -74,12 +74,12 @@ def compute_inverse(
   xy_yaw_vel = jnp.stack(
       [traj.x, traj.y, traj.yaw, traj.vel_x, traj.vel_y], axis=-1
   )
-  xy_yaw_vel_slice = jax.lax.dynamic_slice_in_dim(
+  xy_yaw_vel_slice = datatypes.dynamic_slice(
       xy_yaw_vel, start_index=timestep, slice_size=2, axis=-2
   )
   # Each has shape (..., num_timesteps = 2, 1).
   _, _, yaw, vel_x, vel_y = jnp.split(xy_yaw_vel_slice, 5, axis=-1)
-  valids = jax.lax.dynamic_slice_in_dim(
+  valids = datatypes.dynamic_slice(
       traj.valid, start_index=timestep, slice_size=2, axis=-1
   )
   valid = valids[..., 0:1] & valids[..., 1:2]
-- 
2.43.0

