BUGS = []
def bug(id, property, edits, demo, needs, breaks): BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))

bug('p19-divergence-xyz', 'P19', [('metrics/imitation.py', "        current_object_state.xy, current_log_state.xy\n", "        current_object_state.xyz, current_log_state.xyz\n")], """
from waymax.metrics import imitation
s = state(n=3, t=8, timestep=3)
m = imitation.LogDivergenceMetric().compute(s)
d = np.hypot(np.asarray(s.sim_trajectory.x - s.log_trajectory.x), np.asarray(s.sim_trajectory.y - s.log_trajectory.y))[:, 3]
check(close(m.value, d), 'not the planar distance')
""", 'simulated elevation differing from the logged one', 'log divergence includes elevation')

bug('p20-prior-curve', 'P20', [('metrics/roadgraph.py', "  nearest_indices = jnp.argmin(square_distances, axis=-1)\n", "  # Points are visited from the end of a curve to its start.\n  num_points = square_distances.shape[-1]\n  nearest_indices = (\n      num_points - 1 - jnp.argmin(square_distances[..., ::-1], axis=-1)\n  )\n")], """
from waymax.metrics import roadgraph as mrg
rg = roadgraph((2,), x=5.0, y=np.array([0.0, 0.0]), z=0.0, dir_x=0.0, dir_y=np.array([1.0, -1.0]), ids=np.array([1, 2]))
d = mrg.compute_signed_distance_to_nearest_road_edge_point(jnp.array([[0.0, 0.0, 0.0]]), rg)
rg1 = roadgraph((1,), x=5.0, y=0.0, z=0.0, dir_x=0.0, dir_y=1.0, ids=1)
d1 = mrg.compute_signed_distance_to_nearest_road_edge_point(jnp.array([[0.0, 0.0, 0.0]]), rg1)
check(close(d, d1), 'nearest is not the first of the nearest points')
""", 'two road-edge points at equal distance with opposite directions', 'ties between nearest road-edge points go to the last one')

bug('p20-wrongway-valid', 'P20', [('metrics/roadgraph.py', "    dist = jnp.where(sdc_paths.valid, dist_raw, jnp.inf)\n", "    dist = jnp.where(\n        sdc_paths.valid & sdc_paths.on_route, dist_raw, jnp.inf\n    )\n")], """
from waymax.metrics import roadgraph as mrg
p = paths((2, 4), x=np.array([[100.0] * 4, [0.0] * 4]), y=0.0, on_route=np.array([[True], [False]]))
s = state(n=3, t=8, timestep=3, pths=p, sim=traj((3, 8), 5, x=0.0, y=0.0))
check(close(mrg.WrongWayMetric().compute(s).value, 0.0), 'the ego is on one of its paths')
""", 'an ego on one of its paths that is not on its route', 'wrong-way ignores paths that are not on the route')

bug('p21-arc-invalid', 'P21', [('metrics/route.py', "      dist = jnp.where(path.valid, dist_raw, jnp.inf)\n      idx = jnp.argmin(dist, axis=-1, keepdims=True)", "      dist = jnp.where(path.valid, dist_raw, dist_raw[..., :1])\n      idx = jnp.argmin(dist, axis=-1, keepdims=True)")], """
from waymax.metrics import route
p = paths((1, 4), x=np.array([[0.0, 10.0, 20.0, 0.0]]), y=0.0, valid=np.array([[False, True, True, True]]) , arc_length=np.array([[0.0, 10.0, 20.0, 7.0]]))
log = traj((1, 4), 6, x=np.array([[0.0, 5, 15, 20.0]]), y=0.0)
sim = traj((1, 4), 6, x=10.0, y=0.0)
m = route.ProgressionMetric().compute(state(n=1, t=4, timestep=2, pths=p, log=log, sim=sim, md=metadata((1,))))
check(close(m.value, (10 - 7) / (20 - 7.0)), 'progression uses an invalid path point')
""", 'a path whose first point is invalid and nearest', 'progression measured from an invalid path point')

bug('p21-offroute-none', 'P21', [('metrics/route.py', """    off_route = jnp.where(
        sdc_off_route, min_sdc_dist_to_valid_on_route_paths, 0.0
    )""", """    off_route = jnp.where(
        sdc_off_route,
        jnp.minimum(
            min_sdc_dist_to_valid_on_route_paths,
            jnp.maximum(
                min_sdc_dist_to_valid_off_route_paths,
                self.MAX_DISTANCE_TO_ROUTE_PATH,
            ),
        ),
        0.0,
    )""")], """
from waymax.metrics import route
p = paths((2, 3), x=np.array([[40.0] * 3, [20.0] * 3]), y=0.0, on_route=np.array([[True], [False]]))
s = state(n=1, t=4, timestep=2, pths=p, sim=traj((1, 4), 6, x=0.0, y=0.0), md=metadata((1,)))
check(close(route.OffRouteMetric().compute(s).value, 40.0), 'off-route distance')
""", 'an ego whose nearest off-route path is closer than its nearest on-route path', 'off-route value is not the distance to the nearest on-route point')

bug('p22-braking', 'P22', [('metrics/comfort.py', "        jnp.abs(accel) > self._max_acc + _KIM_EPSILON,\n", "        accel > self._max_acc + _KIM_EPSILON,\n")], """
from waymax.metrics import comfort
tr = traj((1, 2), 5, vel_x=np.array([[10.0, 7.0]]), vel_y=0.0, yaw=0.0)
m = comfort.KinematicsInfeasibilityMetric().compute_kinematics_infeasibility(tr, jnp.array(1))
check(close(m.value, 1.0), 'braking at 30 m/s^2 not flagged')
""", 'a hard braking', 'excessive deceleration is not flagged')

bug('p23-invalid-weight', 'P23', [('datatypes/array.py', "MASKEDVALUE", "")] , "", '', '')
BUGS.pop()

bug('p24-first-ego', 'P24', [('env/planning_agent_environment.py', """    return datatypes.select_by_onehot(
        multi_agent_action, metadata.is_sdc, keepdims=False
    )""", """    sdc_index = jnp.argmax(metadata.is_sdc.reshape(-1, metadata.num_objects)[0])
    return datatypes.dynamic_index(
        multi_agent_action, sdc_index, axis=metadata.is_sdc.ndim - 1, keepdims=False
    )""")], """
from waymax import dynamics
from waymax.env import planning_agent_environment as pae
md = metadata((2, 3), is_sdc=np.array([[True, False, False], [False, False, True]]))
tr = traj((2, 3, 4), 5)
d = pae.PlanningAgentDynamics(dynamics.StateDynamics())
a = d.inverse(tr, md, 1)
check(close(a.data[1, 0], tr.x[1, 2, 2]), 'not the action of the ego of the second scene')
""", 'a batch whose scenes have the ego at different places', 'inferred actions are those of another object in some scenes')

bug('p24-reward-ego', 'P24', [('env/planning_agent_environment.py', """    multi_agent_metrics_names = ('log_divergence', 'overlap', 'offroad')
    for metric_name in multi_agent_metrics_names:
      if metric_name in metric_dict:""", """    multi_agent_metrics_names = ('log_divergence', 'overlap', 'offroad')
    # Metrics of a single object are already those of the ego.
    for metric_name in multi_agent_metrics_names:
      if metric_name in metric_dict and (
          metric_dict[metric_name].value.shape != state.shape + (1,)
      ):""")], """
from waymax import dynamics, env
e = env.PlanningAgentEnvironment(dynamics.StateDynamics(), _config.EnvironmentConfig(max_num_objects=1, controlled_object=_config.ObjectType.SDC, metrics=_config.MetricsConfig(metrics_to_run=('log_divergence',))))
s = state(n=1, t=8, timestep=3, md=metadata((1,)))
m = e.metrics(s)['log_divergence']
check(m.value.shape == (), 'the metric of the ego has an object dimension')
""", 'scenes with a single object', 'metrics keep their object dimension when the ego is alone')

bug('p25-same-key', 'P25', [('env/planning_agent_environment.py', """    updated_sim_agent_actor_states = []
    if rng is not None:
      keys = jax.random.split(rng, len(self._sim_agent_actors))""", """    updated_sim_agent_actor_states = []
    if rng is not None:
      keys = [jax.random.split(rng, 1)[0]] * len(self._sim_agent_actors)""")], """
from waymax import dynamics, env
from waymax.agents import actor_core
def mk(i):
  def sel(params, state, actor_state, rng):
    return actor_core.WaymaxActorOutput(actor_state=jax.random.uniform(rng), action=datatypes.Action(data=jnp.zeros((3, 5)), valid=jnp.ones((3, 1), bool)), is_controlled=jnp.arange(3) == i)
  return actor_core.actor_core_factory(lambda rng, s: jnp.zeros(()), sel)
e = env.PlanningAgentEnvironment(dynamics.StateDynamics(), _config.EnvironmentConfig(max_num_objects=3, controlled_object=_config.ObjectType.SDC), [mk(1), mk(2)], [{}, {}])
s = e.reset(state(n=3, t=12, timestep=0))
a = datatypes.Action(data=jnp.zeros((5,)), valid=jnp.ones((1,), bool))
o = e.step(s, a, jax.random.PRNGKey(0))
k = o.sim_agent_actor_states
check(float(k[0]) != float(k[1]), 'two agents got the same random key')
""", 'two stochastic agents and a random key', 'agents share one random key')

bug('p25-uncontrolled-valid', 'P25', [('env/planning_agent_environment.py', """      merged_action_valid = jnp.where(
          controlled_by_sim[..., jnp.newaxis], action.valid, merged_action.valid
      )""", """      merged_action_valid = jnp.where(
          agent_output.is_controlled[..., jnp.newaxis],
          action.valid,
          merged_action.valid,
      )"""), ('env/planning_agent_environment.py', "        is_controlled=merged_controlled,\n        timestep=state.timestep,\n", "        is_controlled=merged_controlled & merged_action.valid[..., 0],\n        timestep=state.timestep,\n")], """
from waymax import dynamics, env
from waymax.agents import actor_core
def sel(params, state, actor_state, rng):
  return actor_core.WaymaxActorOutput(actor_state=None, action=datatypes.Action(data=jnp.zeros((3, 5)), valid=jnp.zeros((3, 1), bool)), is_controlled=jnp.ones((3,), bool))
ag = actor_core.actor_core_factory(lambda rng, s: None, sel)
e = env.PlanningAgentEnvironment(dynamics.StateDynamics(), _config.EnvironmentConfig(max_num_objects=3, controlled_object=_config.ObjectType.SDC), [ag], [{}])
log = traj((3, 12), 6, x=0.0, y=0.0)    # everything overlaps: nothing is handed to the agent
s = e.reset(state(n=3, t=12, timestep=0, log=log))
a = datatypes.Action(data=jnp.array([7.0, 8.0, 0.5, 1.0, 2.0]), valid=jnp.ones((1,), bool))
o = e.step(s, a)
check(close(o.sim_trajectory.x[0, int(s.timestep) + 1], 7.0), 'an agent that controls nothing overrides the planner')
""", 'an agent whose mask selects the ego, whose logged box overlaps another at the first step, with an invalid action there', 'the action of an agent has an effect at an object that is not handed to it')

bug('p26-valid-or', 'P26', [('agents/actor_core.py', "from waymax import datatypes\n", "from waymax import datatypes\n") ] if False else [('agents/actor_core.py', """    action = _merge_actions(
        output.is_controlled[..., jnp.newaxis], output.action, action
    )""", """    merged = _merge_actions(
        output.is_controlled[..., jnp.newaxis], output.action, action
    )
    # An action is only valid if it is valid for the first actor as well.
    action = merged.replace(valid=merged.valid & action.valid)""")], """
from waymax.agents import actor_core
mk = lambda c, v, x: actor_core.WaymaxActorOutput(actor_state=None, action=datatypes.Action(data=jnp.full((2, 3), x), valid=jnp.array(v)[:, None]), is_controlled=jnp.array(c))
m = actor_core.merge_actions([mk([True, False], [True, False], 1.0), mk([False, True], [True, True], 2.0)])
check(np.asarray(m.valid)[:, 0] == [True, True], 'validity of the controlling actor')
""", 'an actor that flags the objects of another as invalid', 'merged validity is not the one of the controlling actor')

bug('p27-idm-gap', 'P27', [('agents/waypoint_following_agent.py', """    s_star = self.min_spacing_s0 + jnp.maximum(
        0,
        cur_speed * self.safe_time_headway
        + cur_speed
        * (cur_speed - lead_vel)
        / (2 * jnp.sqrt(self.max_accel * self.max_decel)),
    )""", """    s_star = jnp.maximum(
        0,
        self.min_spacing_s0
        + cur_speed * self.safe_time_headway
        + cur_speed
        * (cur_speed - lead_vel)
        / (2 * jnp.sqrt(self.max_accel * self.max_decel)),
    )""")], """
from waymax.agents import waypoint_following_agent as wfa
p = wfa.IDMRoutePolicy(additional_lookahead_points=10, additional_lookahead_distance=30.0)
n, t = 2, 6
sim = traj((n, t), 5, x=np.array([[0.0], [14.0]]) * np.ones((1, t)), y=0.0, z=0.0, yaw=0.0, vel_x=np.array([[5.0], [25.0]]) * np.ones((1, t)), vel_y=0.0)
s = state(n=n, t=t, timestep=2, sim=sim, log=sim)
v, _ = p.update_speed(s)
acc = (float(v[0]) - 5.0) / 0.1
x = np.linspace(0, 30, 11)
gap = min(d for d in x if abs(d - 14.0) < 4.0)
want = 2.0 * (1 - (5.0 / 30.0) ** 4 - ((2.0 + max(0.0, 5.0 * 2 + 5.0 * (5 - 25.0) / (2 * np.sqrt(8.0)))) / gap) ** 2)
check(abs(acc - want) < 1e-2, 'acceleration %r, want %r' % (acc, want))
""", 'a leader that drives much faster', 'minimum spacing is not kept in the desired gap behind a fast leader')

bug('p27-last-valid', 'P27', [('agents/waypoint_following_agent.py', """    last_valid_idx = jnp.where(traj.valid, jnp.arange(traj.shape[0]), 0)
    last_valid_idx = jnp.argmax(last_valid_idx, axis=-1)
""", """    last_valid_idx = jnp.sum(traj.valid, axis=-1) - 1
""")], """
from waymax.agents import waypoint_following_agent as wfa
log = traj((6,), 5, x=np.arange(6) * 1.0, y=0.0, yaw=0.0, valid=np.array([False, False, True, True, True, True]))
xy, yaw, end = wfa._project_to_a_trajectory(jnp.array([[3.1, 0.2]]), log)
check(not bool(end[0]), 'the end of the log is reported in the middle')
check(close(xy, [[3.1, 0.0]]), 'projection')
""", 'a log that starts late (invalid at its first steps)', 'the end of the log is detected at the wrong point')

bug('p28-heading', 'P28', [('agents/constant_speed.py', """        y=traj_t0.y + vel_y * datatypes.TIME_INTERVAL,
        vel_x=vel_x,""", """        y=traj_t0.y + vel_y * datatypes.TIME_INTERVAL,
        yaw=jnp.where(
            jnp.hypot(vel_x, vel_y) > 1.0, jnp.arctan2(vel_y, vel_x), traj_t0.yaw
        ),
        vel_x=vel_x,""")], """
from waymax import agents, dynamics
a = agents.create_constant_speed_actor(dynamics.StateDynamics(), lambda s: s.object_metadata.is_valid, None)
s = state(n=3, t=8, timestep=3)
o = a.select_action(None, s, None, None)
check(close(o.action.data[:, 2], s.sim_trajectory.yaw[:, 3]), 'heading is not kept')
""", 'an object whose velocity does not point along its heading', 'heading jumps to the direction of motion')

bug('p29-padding-sdc', 'P29', [('dataloader/womd_factories.py', "  is_sdc = jnp.asarray(example['state/is_sdc'] == 1)\n", "  is_sdc = jnp.asarray(example['state/is_sdc'], dtype=jnp.bool_)\n")], """
from waymax.dataloader import womd_factories
z = jnp.array([1, 0, -1])
m = womd_factories.object_metadata_from_womd_dict({'state/tracks_to_predict': z, 'state/is_sdc': z, 'state/objects_of_interest': z, 'state/id': z * 1.0, 'state/type': z * 1.0})
check(np.asarray(m.is_sdc) == [True, False, False], 'padded objects flagged as ego')
""", 'padded objects (flagged -1)', 'padded objects are read as ego vehicles')

bug('p30-timestamps', 'P30', [('dataloader/womd_dataloader.py', "    processed['state/all/bbox_yaw'] = wrap_yaws(processed['state/all/bbox_yaw'])\n", "    for key in processed:\n      if key.endswith('_yaw'):\n        processed[key] = wrap_yaws(processed[key])\n")], """
import tensorflow as tf
from waymax.dataloader import womd_dataloader
ex = {}
for k, n in (('past', 2), ('current', 1), ('future', 3)):
  for f in ('bbox_yaw', 'vel_yaw', 'x', 'valid'):
    ex['state/%s/%s' % (k, f)] = tf.ones((2, n)) * 4.0
o = womd_dataloader.preprocess_womd_example(ex, aggregate_timesteps=True, max_num_objects=None)
check(close(o['state/all/vel_yaw'], 4.0), 'a feature other than the heading was changed')
""", 'directions of motion outside of [-pi, pi)', 'preprocessing changes values other than headings')

bug('p31-invalid-ids', 'P31', [('dataloader/womd_utils.py', "      start_index=jnp.array(state.timestep, int) - num_history,\n      slice_size=num_history,\n      axis=-1,\n  )\n\n  # Here is the traffic light information.", "      start_index=jnp.array(state.timestep, int) - num_history,\n      slice_size=num_history,\n      axis=-1,\n  )\n  # Dimensions are constant over time.\n  state_past = state_past.replace(\n      length=jnp.broadcast_to(current_state.length, state_past.length.shape)\n  )\n\n  # Here is the traffic light information.")], """
import tensorflow as tf
from waymax.dataloader import womd_utils
n, t = 3, 20
fd = womd_utils.get_features_description(max_num_objects=n, max_num_rg_points=10, num_tls=2)
sim = traj((n, t), 5, length=np.arange(n * t).reshape(n, t) * 1.0)
d = womd_utils.simulator_state_to_womd_dict(state(n=n, t=t, timestep=12, sim=sim), fd)
check(close(d['state/past/length'], sim.length[:, 2:12]), 'past lengths')
""", 'lengths that differ between simulated steps (e.g. invalid placeholders)', 'past lengths are not those of the past steps')

bug('p32-done-any', 'P32', [('env/wrappers/dm_env_wrapper.py', "    if jnp.all(done):\n      self._done = True\n", "    if jnp.all(done) or jnp.any(termination):\n      self._done = True\n")], """
from waymax import dynamics, env
from waymax.env.wrappers import dm_env_wrapper
class E(env.BaseEnvironment):
  def termination(self, state):
    return jnp.asarray(state.timestep >= 3) & (jnp.arange(2) == 0)
e = E(dynamics.DeltaLocal(), _config.EnvironmentConfig(max_num_objects=3, init_steps=2))
def gen():
  while True: yield state((2,), 3, 8, timestep=0)
w = dm_env_wrapper.DMEnvWrapper(gen(), e)
w.reset()
raised = False
try:
  for _ in range(2): w.step(jnp.zeros((2, 3, 3)))
except NotImplementedError:
  raised = True
check(raised, 'a batch whose scenes do not end together was accepted')
""", 'an environment that terminates one scene of a batch early', 'a batch with mixed endings ends as a whole')

bug('p33-done', 'P33', [('env/wrappers/brax_wrapper.py', "    done = jnp.logical_or(termination, truncation)\n    discount = jnp.logical_not(termination).astype(jnp.float32)\n    metric_dict", "    done = jnp.logical_xor(termination, truncation)\n    discount = jnp.logical_not(termination).astype(jnp.float32)\n    metric_dict")], """
from waymax import dynamics, env
from waymax.env.wrappers import brax_wrapper
class E(env.BaseEnvironment):
  def termination(self, state):
    return jnp.asarray(state.timestep >= 7)
dyn = dynamics.StateDynamics()
cfg = _config.EnvironmentConfig(max_num_objects=3, init_steps=7)
w = brax_wrapper.BraxWrapper(E(dyn, cfg), dyn, cfg)
ts = w.reset(state(n=3, t=8, timestep=0))
ts = w.step(ts, datatypes.Action(data=jnp.zeros((3, 5)), valid=jnp.ones((3, 1), bool)))
check(bool(ts.done), 'not done although the next state terminates')
""", 'an environment that terminates at the very step of truncation', 'a state that both terminates and truncates is not reported done')

bug('p34-reregister', 'P34', [('metrics/metric_factory.py', "  if metric_name in _METRICS_REGISTRY:\n    raise", "  if metric_name in _METRICS_REGISTRY and not isinstance(\n      metric, type(_METRICS_REGISTRY[metric_name])\n  ):\n    raise")], """
from waymax.metrics import metric_factory, overlap
raised = False
try:
  metric_factory.register_metric('overlap', overlap.OverlapMetric())
except ValueError:
  raised = True
check(raised, 'duplicate registration accepted')
""", 'registering another metric of the same class under a taken name', 'duplicate registrations are accepted')

bug('p35-modeled', 'P35', [('datatypes/simulator_state.py', "    is_controlled = metadata.is_modeled\n", "    is_controlled = metadata.is_modeled & metadata.is_valid\n")], """
m = metadata((3,), is_modeled=np.array([True, True, False]), is_valid=np.array([True, False, True]))
check(np.asarray(datatypes.get_control_mask(m, _config.ObjectType.MODELED)) == [True, True, False], 'modeled objects')
""", 'a modeled object that is not flagged valid', 'the mask of modeled objects leaves some out')

bug('p23-invalid-value', 'P23', [('rewards/linear_combination_reward.py', "metric_all_agents = all_metrics[reward_metric_name].masked_value()", "metric_all_agents = all_metrics[reward_metric_name].value")], """
from waymax import rewards
n, t = 3, 8
log = traj((n, t), 6, valid=at(np.ones((n, t), bool), (1, 3), False))
s = state(n=n, t=t, timestep=3, log=log)
r = rewards.LinearCombinationReward(_config.LinearCombinationRewardConfig({'log_divergence': -1.0})).compute(s, None, jnp.ones((n,), bool))
check(float(r[1]) == 0.0, 'an invalid metric contributes to the reward')
""", 'an object whose metric is not valid', 'invalid metrics contribute to the reward')
