BUGS = []
def bug(id, property, edits, demo, needs, breaks): BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))

bug('p01-clear-later-steps', 'P01', [('dynamics/abstract_dynamics.py', """  # Update the simulated trajectory in the simulator state.
  return datatypes.update_by_slice_in_dim(
      inputs=sim_trajectory,
""", """  # An object which is not valid at the new step has no simulated future.
  steps = jnp.arange(sim_trajectory.num_timesteps)
  sim_trajectory = sim_trajectory.replace(
      valid=sim_trajectory.valid & ((steps <= timestep) | next_valid)
  )
  # Update the simulated trajectory in the simulator state.
  return datatypes.update_by_slice_in_dim(
      inputs=sim_trajectory,
""")], """
from waymax import dynamics, env
n, t = 3, 8
log = traj((n, t), 6, valid=at(np.ones((n, t), bool), (1, 4), False))
s = state(n=n, t=t, timestep=3, log=log)   # the simulated future is filled in
e = env.BaseEnvironment(dynamics.StateDynamics(), _config.EnvironmentConfig(max_num_objects=n, controlled_object=_config.ObjectType.SDC))
a = datatypes.Action(data=jnp.zeros((n, 5)), valid=jnp.ones((n, 1), bool))
o = e.step(s, a)
keep = np.arange(t) != 4
check(np.asarray(o.sim_trajectory.valid)[:, keep] == np.asarray(s.sim_trajectory.valid)[:, keep], 'a step changed the validity of a later step')
""", 'a simulated trajectory that is valid beyond the current step and an object that disappears from the log', 'stepping rewrites the validity of steps later than the new one')

bug('p02-z-from-log', 'P02', [('dynamics/abstract_dynamics.py', "  replacement_dict['valid'] = next_valid\n", """  replacement_dict['valid'] = next_valid
  # Objects entering the scene take their elevation from the log.
  replacement_dict['z'] = jnp.where(
      next_valid & ~current_traj.valid, default_next_traj.z, current_traj.z
  )
""")], """
from waymax import dynamics
n, t = 3, 8
sim = traj((n, t), 5, valid=at(np.ones((n, t), bool), (1, 3), False))
log = traj((n, t), 6)
a = datatypes.Action(data=jnp.zeros((n, 5)), valid=jnp.ones((n, 1), bool))
o = dynamics.StateDynamics().forward(a, sim, log, jnp.array([True, False, False]), 3, True)
check(close(o.z[:, 4], sim.z[:, 3]), 'elevation does not carry over from the current step')
""", 'an uncontrolled object that is injected at this step', 'elevation of injected objects comes from the log instead of carrying over')

bug('p03-invalid-action', 'P03', [('dynamics/abstract_dynamics.py', """      exist_and_controlled,
      current_traj.valid,
      current_traj.valid & default_next_traj.valid,
  )""", """      exist_and_controlled,
      trajectory_update.valid,
      current_traj.valid & default_next_traj.valid,
  )""")], """
from waymax import dynamics
n, t = 3, 8
sim = traj((n, t), 5)
log = traj((n, t), 6)
ok = jnp.array([[False], [True], [True]])
a = datatypes.Action(data=jnp.zeros((n, 5)), valid=ok)
for inj in (True, False):
  o = dynamics.StateDynamics().forward(a, sim, log, jnp.array([True, True, False]), 3, inj)
  check(o.valid[:, 4], 'a controlled object that was there is gone after the step')
""", 'a controlled object whose action is flagged invalid', 'the object disappears instead of staying valid')

bug('p04-batch-out-of-sync', 'P04', [('datatypes/simulator_state.py', """          inputs_start_idx=state.timestep + 1,
          slice_size=num_steps,""", """          inputs_start_idx=jnp.max(state.timestep) + 1,
          slice_size=num_steps,""")], """
n, t = 3, 8
s = state((2,), n, t, timestep=[1, 4])
o = datatypes.update_state_by_log(s, 2)
for b, t0 in enumerate([1, 4]):
  x = np.array(s.sim_trajectory.x[b]); x[:, t0+1:t0+3] = np.array(s.log_trajectory.x[b])[:, t0+1:t0+3]
  check(close(o.sim_trajectory.x[b], x), 'wrong steps copied from the log')
""", 'a batch whose scenes are at different timesteps', 'advancing by the log copies the wrong steps for scenes that are behind')

bug('p05-truncation-past-end', 'P05', [('env/abstract_environment.py', "truncate = state.remaining_timesteps < 1", "truncate = state.remaining_timesteps == 0")], """
from waymax import dynamics, env
n, t = 3, 8
e = env.BaseEnvironment(dynamics.StateDynamics(), _config.EnvironmentConfig(max_num_objects=n))
for ts in range(0, 11):
  check(bool(e.truncation(state(n=n, t=t, timestep=ts))) == (t - 1 - ts < 1), 'truncation at %d' % ts)
""", 'a state that was stepped beyond the horizon', 'an episode past its horizon is reported as running again')

bug('p06-last-reward-action', 'P06', [('env/rollout.py', "      reward=env.reward(carry.state, padding_action),", "      reward=env.reward(\n          carry.state, jax.tree_util.tree_map(lambda x: x[-1], output.action)\n      ),")], """
from waymax import dynamics, env, agents
n, t = 3, 8
class E(env.BaseEnvironment):
  def reward(self, state, action):
    return jnp.sum(action.data, axis=-1)
dyn = dynamics.StateDynamics()
e = E(dyn, _config.EnvironmentConfig(max_num_objects=n, init_steps=2, metrics=_config.MetricsConfig(metrics_to_run=('log_divergence',))))
actor = agents.create_expert_actor(dyn, lambda s: s.object_metadata.is_valid)
out = env.rollout(state(n=n, t=t, timestep=0), actor, e, jax.random.PRNGKey(0), 3)
check(close(out.reward[-1], 0.0), 'the last entry does not carry the reward of the zero action')
""", 'a reward that depends on the action', 'the last entry of a rollout carries the reward of a repeated action, not of the zero action')

bug('p07-expert-valid', 'P07', [('agents/expert.py', """  return dynamics_model.inverse(
      combined_traj, metadata=simulator_state.object_metadata, timestep=0
  )""", """  action = dynamics_model.inverse(
      combined_traj, metadata=simulator_state.object_metadata, timestep=0
  )
  # The expert only acts for objects which are present in the simulation.
  return datatypes.Action(
      data=action.data, valid=action.valid & prev_sim_traj.valid
  )""")], """
from waymax import dynamics
from waymax.agents import expert
n, t = 3, 8
sim = traj((n, t), 5, valid=at(np.ones((n, t), bool), (1, 3), False))
s = state(n=n, t=t, timestep=3, sim=sim)
a = expert.infer_expert_action(s, dynamics.StateDynamics())
check(np.asarray(a.valid)[:, 0] == np.asarray(s.log_trajectory.valid)[:, 4], 'validity of the expert action')
""", 'an object that is not valid in simulation but valid in the log at the next step', 'expert action invalid although the logged next step is valid')

bug('p08-velocity-time', 'P08', [('dynamics/delta.py', "from waymax import datatypes\n", "from waymax import datatypes\n_TIME = datatypes.TIME_INTERVAL\n"), ('dynamics/delta.py', "    vel_x = dx / self._dt\n    vel_y = dy / self._dt\n", "    vel_x = dx / _TIME\n    vel_y = dy / _TIME\n")], """
from waymax import dynamics
tr = traj((3, 1), 5)
a = datatypes.Action(data=jnp.asarray(np.random.RandomState(0).uniform(-1, 1, (3, 3)), jnp.float32), valid=jnp.ones((3, 1), bool))
for c in (dynamics.DeltaGlobal, dynamics.DeltaLocal):
  u = c(dt=0.25).compute_update(a, tr)
  check(close(u.vel_x, (u.x - tr.x) / 0.25), 'velocity is not displacement over the step time')
""", 'a delta model with a step time other than the default', 'velocity is displacement over 0.1 s whatever the step time')

bug('p09-no-reverse-turn', 'P09', [('dynamics/bicycle_model.py', "    delta_yaw = steering * (speed * t + 0.5 * accel * t**2)\n    new_yaw", "    delta_yaw = steering * jnp.maximum(speed * t + 0.5 * accel * t**2, 0.0)\n    new_yaw")], """
from waymax import dynamics
tr = traj((1, 1), 5, vel_x=0.1, vel_y=0.0, yaw=0.0)
m = dynamics.InvertibleBicycleModel()
u = m.compute_update(datatypes.Action(data=jnp.array([[-6.0, 0.3]]), valid=jnp.ones((1, 1), bool)), tr)
check(close(u.yaw, 0.3 * (0.1 * 0.1 - 0.5 * 6 * 0.01), 1e-4), 'heading change is not steering times the distance travelled')
""", 'braking that takes the travelled distance of the step below zero', 'heading stays fixed when the step travels backwards')

bug('p10-no-wrap', 'P10', [('dynamics/bicycle_model.py', "  delta_yaw = geometry.wrap_yaws(real_new_yaw - yaw)\n", "  delta_yaw = real_new_yaw - yaw\n")], """
from waymax import dynamics
m = dynamics.InvertibleBicycleModel()
a = datatypes.Action(data=jnp.array([[1.0, 0.05]]), valid=jnp.ones((1, 1), bool))
yaw = np.pi - 0.02
tr = traj((1, 1), 5, vel_x=8 * np.cos(yaw), vel_y=8 * np.sin(yaw), yaw=yaw)
u = m.compute_update(a, tr)
two = traj((1, 2), 5, x=np.array([[tr.x[0,0], u.x[0,0]]]), y=np.array([[tr.y[0,0], u.y[0,0]]]), yaw=np.array([[tr.yaw[0,0], u.yaw[0,0]]]), vel_x=np.array([[tr.vel_x[0,0], u.vel_x[0,0]]]), vel_y=np.array([[tr.vel_y[0,0], u.vel_y[0,0]]]))
b = m.inverse(two, metadata((1,)), 0)
check(close(b.data, a.data, 1e-2), 'inverse does not recover the action')
""", 'a turn across heading pi', 'inverse steering is off by a whole turn when the heading crosses pi')

bug('p11-uneven-bins', 'P11', [('dynamics/discretizer.py', "jnp.maximum(jnp.minimum(normalized_indices, self._bins), 0)", "jnp.clip(normalized_indices, 0, jnp.max(self._bins))"), ('dynamics/discretizer.py', "        mode='clip',\n", "        mode='wrap',\n")], """
from waymax.dynamics import discretizer
d = discretizer.Discretizer(min_value=jnp.array([-1.0, -2.0]), max_value=jnp.array([1.0, 2.0]), bins=jnp.array([4, 8]))
i = d.discretize(jnp.array([[1.9, 0.0]]))
check(close(d.make_continuous(i), [[1.0, 0.0]]), 'a value beyond the limit is not clipped to the last bin')
""", 'dimensions with different numbers of bins and a value beyond the limit of a coarser one', 'values beyond the limit of a coarse dimension wrap around to small bins')

bug('p12-clip-placeholder', 'P12', [('dynamics/discretizer.py', "    return datatypes.Action(\n          data=self._discretizer.discretize(action_cont.data),", "    return datatypes.Action(\n          data=self._discretizer.discretize(action_cont.data),")] if False else [('dynamics/discretizer.py', "        data=self._discretizer.make_continuous(action.data),\n        valid=action.valid,", "        data=jnp.where(\n            action.valid,\n            self._discretizer.make_continuous(action.data),\n            self._default_cont_action,\n        ),\n        valid=action.valid,")], """
from waymax import dynamics
n = 3
base = dynamics.DeltaGlobal()
w = dynamics.DiscreteActionSpaceWrapper(base, jnp.array([4, 4, 4]))
tr = traj((n, 1), 5)
idx = jnp.array([[5], [17], [100]])
v = jnp.array([[True], [False], [True]])
got = w.compute_update(datatypes.Action(data=idx, valid=v), tr)
want = base.compute_update(datatypes.Action(data=w._discretizer.make_continuous(idx), valid=v), tr)
check(close(got.x, want.x) and close(got.yaw, want.yaw), 'the wrapped model is not applied to the grid action')
""", 'an action flagged invalid', 'invalid discrete actions move objects differently from the wrapped model')

bug('p13-transform-inverse', 'P13', [('utils/geometry.py', "  return rotate_points(pose_matrix[..., :2, :2], pts_dir)", "  # Directions have unit length.\n  out = rotate_points(pose_matrix[..., :2, :2], pts_dir)\n  norm = jnp.linalg.norm(out, axis=-1, keepdims=True)\n  return out / jnp.maximum(norm, 1.0)")], """
from waymax.utils import geometry
m, y = geometry.pose_from_xy_yaw(jnp.array([1.0, 2.0]), jnp.array(0.7))
v = jnp.array([[3.0, 4.0], [0.3, 0.1]])
check(close(jnp.linalg.norm(geometry.transform_direction(m, v), axis=-1), jnp.linalg.norm(v, axis=-1)), 'length of a direction changed')
""", 'a direction (velocity) longer than one', 'transforming directions does not keep lengths')

bug('p14-broad-phase', 'P14', [('utils/geometry.py', """  return jnp.logical_and(
      _overlap_a_over_b(bboxes_a, bboxes_b),
      _overlap_a_over_b(bboxes_b, bboxes_a),
  )""", """  # Boxes whose centers are far apart cannot overlap.
  reach = 0.5 * (
      jnp.max(bboxes_a[..., 2:4], axis=-1) + jnp.max(bboxes_b[..., 2:4], axis=-1)
  )
  center_dist = jnp.linalg.norm(bboxes_a[..., :2] - bboxes_b[..., :2], axis=-1)
  return (center_dist < reach * 1.25) & jnp.logical_and(
      _overlap_a_over_b(bboxes_a, bboxes_b),
      _overlap_a_over_b(bboxes_b, bboxes_a),
  )""")], """
from waymax.utils import geometry
a = jnp.array([0.0, 0.0, 2.0, 2.0, 0.0]); b = jnp.array([1.8, 1.8, 2.0, 2.0, 0.0])
check(bool(geometry.has_overlap(a, b)), 'boxes overlapping at their corners')
""", 'two near-square boxes that overlap only at their corners', 'overlap at corners is missed')

bug('p15-mask-rank', 'P15', [('datatypes/operations.py', "          selection, axis=-(onp.arange(diff) + 1)\n", "          selection, axis=tuple(select_dims + onp.arange(diff))\n"), ('datatypes/operations.py', "    return jnp.sum(\n        x * reshaped_selection, axis=(selection.ndim - 1), keepdims=keepdims\n    ).astype(x.dtype)", "    return jnp.max(\n        x * reshaped_selection, axis=(selection.ndim - 1), keepdims=keepdims\n    ).astype(x.dtype)")], """
x = jnp.array([[-3.0, -4.0], [5.0, 6.0]])
sel = jnp.array([True, False])
check(close(datatypes.select_by_onehot(x, sel), [-3.0, -4.0]), 'selected entry is negative')
""", 'a negative selected entry', 'selection by one-hot masks returns zero instead of negative values')

bug('p16-lights-valid', 'P16', [('datatypes/observation.py', "  valid = jnp.logical_and(tls.valid, pose2d.valid[..., None, None])\n\n  return tls.replace(x=dst_xy[..., 0], y=dst_xy[..., 1], valid=valid)", "  return tls.replace(x=dst_xy[..., 0], y=dst_xy[..., 1])")], """
n, t = 3, 8
sim = traj((n, t), 5, valid=at(np.ones((n, t), bool), (1, 3), False))
o = datatypes.observation_from_state(state(n=n, t=t, timestep=3, sim=sim), 1, 5, _config.CoordinateFrame.OBJECT)
check(~np.asarray(o.traffic_lights.valid)[1], 'traffic lights valid for an invalid observer')
""", 'an observer that is not valid at the current step', 'traffic lights stay valid although the frame object is not')

bug('p17-far-points', 'P17', [('datatypes/roadgraph.py', "valid_distances = jnp.where(roadgraph.valid, distances, float('inf'))", "valid_distances = jnp.where(roadgraph.valid, distances, 1000.0)")], """
rg = roadgraph((3,), x=np.array([0.0, 1500.0, 2500.0]), y=0.0, valid=np.array([False, True, True]))
o = datatypes.filter_topk_roadgraph_points(rg, jnp.zeros((2,)), 2)
check(o.valid, 'an invalid point was preferred to a valid one')
""", 'valid points further away than a kilometre', 'invalid points are returned although enough valid points exist')
bug('p18-own-validity', 'P18', [('metrics/overlap.py', "    num_overlap = jnp.sum(pairwise_overlap, axis=-2)\n", "    num_overlap = jnp.sum(pairwise_overlap, axis=-1)\n")], """
from waymax.metrics import overlap
tr = traj((2, 1), 5, x=0.0, y=0.0, yaw=0.0, valid=np.array([[True], [False]]))
m = overlap.OverlapMetric().compute_overlap(tr)
check(close(m.value, [0.0, 1.0]), 'overlap with an invalid object counted')
""", 'a valid object overlapping an invalid one', 'overlap with invalid objects is flagged')
