"""Writes properties.jsonl and MANIFEST.json (one source for both). Run by hand, output committed."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, text, why, files, mech, over=('inputs',), observe=None):
  P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                anchors=dict(files=['waymax/' + f for f in files], mechanism=[dict(name=n, where='waymax/' + w) for n, w in mech],
                             **({'observe_at': observe} if observe else {}))))


p('P01', 'A step advances time by one and rewrites nothing else',
  'Stepping the simulator increases the timestep by exactly one and changes simulated trajectories only at the new timestep: every earlier and later step keeps its values. The logged trajectories, traffic lights, roadgraph, route paths and object metadata come out unchanged, and so do the shapes and dtypes of every part of the state, with or without batch dimensions.',
  'all states, actions, timesteps, numbers of objects and horizons, batched or not, for every controlled-object setting',
  'The tests step a handful of fixed states; the guarantee is about every cell of every array at every timestep, and the environment tests need a dataset that is not shipped.',
  ['env/base_environment.py', 'dynamics/abstract_dynamics.py', 'datatypes/operations.py'],
  [('step', 'env/base_environment.py'), ('state update', 'dynamics/abstract_dynamics.py'), ('slice update', 'datatypes/operations.py')], ('inputs', 'histories', 'configurations'))
p('P02', 'Controlled objects follow the dynamics, all others follow the log',
  'After a step the new position, heading and velocity of every controlled object are exactly what the dynamics model computes from its current simulated state and action, and those of every uncontrolled object are exactly the logged ones at the new timestep. Elevation and box sizes carry over from the current simulated step, and the timestamp is the logged one. Where the constant-speed fallback is requested, a controlled object whose update is flagged invalid instead coasts for one step along its current velocity.',
  'all states, actions, controlled-object settings (ego only, modeled, all valid) and dynamics models',
  'Tests check single objects on fixed logs; which source feeds each of the values must be right for every mix of controlled, uncontrolled, valid and invalid objects.',
  ['env/base_environment.py', 'dynamics/abstract_dynamics.py', 'datatypes/operations.py'],
  [('forward', 'dynamics/abstract_dynamics.py'), ('controlled-object selection', 'datatypes/operations.py')], ('inputs', 'configurations'))
p('P03', 'Object validity after a step follows the controlled/injection rules',
  'After a step a controlled object that was valid in simulation stays valid. Any other object is valid exactly when the log says so at the new timestep, and, when injection of new objects is disabled, only if it was also valid in simulation at the current step.',
  'all validity patterns, controlled-object settings and injection settings',
  'The validity rule is a truth table over four booleans per object per configuration; tests exercise few rows and never batched states.',
  ['env/base_environment.py', 'dynamics/abstract_dynamics.py'], [('validity update', 'dynamics/abstract_dynamics.py')], ('inputs', 'configurations'))
p('P04', 'Reset starts the episode from the log with a blank future',
  'Resetting sets the timestep to the configured number of warm-up steps minus one; simulated trajectories equal the log on the warm-up steps and are invalid placeholders on all later steps, and everything else in the state is kept. Advancing a state by k logged steps copies exactly the next k log steps into the simulation and moves the timestep by k, touching nothing else.',
  'all logged scenarios, horizons, warm-up lengths, timesteps and step counts',
  'Tests use one scenario and one warm-up length; off-by-one errors at the boundary between history and future show only for particular cells.',
  ['env/base_environment.py', 'datatypes/simulator_state.py', 'datatypes/operations.py'],
  [('reset', 'env/base_environment.py'), ('update_state_by_log', 'datatypes/simulator_state.py')], ('inputs', 'configurations'))
p('P05', 'Episodes end exactly at the horizon',
  'The remaining number of steps is the number of logged steps minus one minus the current timestep, each step lowers it by one, and an episode is reported done and truncated exactly when no further step remains. The base environment never terminates an episode early.',
  'all timesteps and horizons, batched or not',
  'Off-by-one behaviour at the final steps needs runs to the horizon, which tests do not do for arbitrary lengths.',
  ['env/base_environment.py', 'datatypes/simulator_state.py'], [('is_done / remaining_timesteps', 'datatypes/simulator_state.py'), ('truncation', 'env/base_environment.py')], ('inputs', 'histories'))
p('P06', 'A rollout is the repeated application of act, reward, metrics and step',
  'A rollout of n steps (n at least 1) equals n explicit iterations of select-action then step from the reset scenario: entry i of the output holds the state, its observation and metrics after i steps, and the action and reward of step i; the last entry repeats no step and carries a zero action. The random key is split once per step, so that each step uses a fresh key, and the actor state returned at one step is the one given to the next.',
  'all environments, actors, initial states, random keys and numbers of steps',
  'Tests run short rollouts of one environment and compare shapes or final states; alignment of every entry for any length is an induction.',
  ['env/rollout.py'], [('rollout', 'env/rollout.py')], ('inputs', 'histories', 'programs'))
p('P07', 'Log-replay actions reproduce the logged trajectory',
  'The expert action inferred from the log, applied through the state dynamics model, puts each controlled object exactly at its next logged position, heading and velocity whenever the log is valid there. Its validity is that of the logged next step, and a fully expert-driven simulation therefore coincides with the log.',
  'all logged trajectories, timesteps and validity patterns',
  'Tests replay a few fixed logs with all objects valid.',
  ['agents/expert.py', 'dynamics/state_dynamics.py', 'datatypes/operations.py'], [('infer_expert_action', 'agents/expert.py'), ('inverse / compute_update', 'dynamics/state_dynamics.py')], ('inputs', 'histories'))
p('P08', 'Delta dynamics move by the commanded displacement and invert exactly',
  'Delta dynamics add the commanded displacement (in global axes, or in the vehicle frame rotated by the current heading) and heading change to the current pose, and set velocity to displacement over the step time; the result is valid only if both state and action are. Their inverse returns the displacement between consecutive logged steps in the same frame, clipped to the action limits with the heading change wrapped to one turn, and zero with an invalid flag when either step is invalid.',
  'all poses, headings, displacements, limits, timesteps, batch shapes and validity patterns',
  'Tests use a few headings and unit displacements; frame and sign errors at other headings, clipped values and invalid steps are not sampled.',
  ['dynamics/delta.py', 'dynamics/abstract_dynamics.py'], [('compute_update / inverse', 'dynamics/delta.py')], ('inputs', 'configurations'))
p('P09', 'Bicycle forward kinematics',
  'The bicycle model clips (and, if configured, rescales from [-1, 1]) acceleration and steering to its limits and then advances position by v dt + a dt^2/2 along the motion, heading by steering times the distance travelled (wrapped to one turn), and speed by a dt with velocity along the new heading. The result is valid only if both state and action are.',
  'all vehicle states, actions inside or outside limits, limits and step times',
  'Tests use a few straight or single-turn cases at default limits.',
  ['dynamics/bicycle_model.py'], [('compute_update', 'dynamics/bicycle_model.py')], ('inputs', 'configurations'))
p('P10', 'Bicycle inverse stays in limits and recovers the driving action',
  'The inverse bicycle action between two consecutive logged steps is the speed change over the step time and the heading change per distance travelled, zero when either step is invalid and with zero steering at low speed, and is valid only if both steps are. Within the limits, replaying the inverse of a step made by the bicycle model recovers the original action; the result always lies inside the limits of the action specification.',
  'all pairs of logged steps, including low speed, reversing heading and wrap-around',
  'Tests invert a few generated trajectories; thresholds, wrap-around and invalid steps are not sampled.',
  ['dynamics/bicycle_model.py'], [('inverse', 'dynamics/bicycle_model.py'), ('compute_inverse', 'dynamics/bicycle_model.py')], ('inputs', 'configurations'))
p('P11', 'Discretisation is a nearest-bin bijection on the action grid',
  'Discretising a continuous action picks, independently in each dimension, the nearest of the evenly spaced grid values after clipping to the limits, and the flat index enumerates the grid without collision. Undiscretising any valid index gives a grid value inside the limits, and discretising it again returns the same index.',
  'all limits, bin counts, indices and continuous actions, inside or outside the limits',
  'Tests use fixed grids and a few values; boundary values, unequal bins per dimension and every index are not covered.',
  ['dynamics/discretizer.py'], [('Discretizer', 'dynamics/discretizer.py')], ('inputs', 'configurations'))
p('P12', 'Discrete action spaces wrap continuous dynamics faithfully',
  'A discretised dynamics model moves objects exactly as the wrapped continuous model does for the grid action of the given index, and its inverse returns the index of the wrapped inverse action with its validity. Its action specification admits exactly the indices of the grid.',
  'all wrapped models, bin counts, indices and states',
  'Tests cover one wrapped model with fixed bins.',
  ['dynamics/discretizer.py'], [('DiscreteActionSpaceWrapper', 'dynamics/discretizer.py')], ('inputs', 'configurations'))
p('P13', 'Frame changes are rigid motions and heading wraps to one turn',
  'Transforming points, directions, headings and boxes into a pose\'s frame is the rigid motion of that pose: the pose itself maps to the origin with zero heading, distances and relative angles are kept, and the global-to-local transform is inverted by the opposite pose. Wrapping a heading returns an equal angle in [-pi, pi).',
  'all poses, points, headings and batch shapes',
  'Tests use a few hand-computed points.',
  ['utils/geometry.py', 'datatypes/observation.py'], [('pose_from_ref / transform', 'utils/geometry.py'), ('ObjectPose2D', 'datatypes/observation.py')])
p('P14', 'Box overlap is exactly geometric intersection',
  'Two oriented boxes are reported as overlapping exactly when no edge direction of either separates them, whatever the order of the two boxes; boxes that merely touch do not overlap. The pairwise result over a set of boxes is symmetric, agrees with the two-box test off the diagonal and is false on it.',
  'all pairs of oriented boxes and validity patterns',
  'Tests use a few axis-aligned or 45-degree boxes.',
  ['utils/geometry.py'], [('has_overlap / compute_pairwise_overlaps', 'utils/geometry.py')])
p('P15', 'Structured-array operations act on every leaf and only where asked',
  'Slicing and indexing at a dynamic position (clamped to stay inside), updating a slice, updating by a mask, selection by one-hot masks, masked mean and masked filling, invalid-data construction and comparison on structured data act leaf by leaf as the corresponding array operation at every index, for batched and unbatched data and any axis, and leave all other entries unchanged. Masked means depend only on entries where the mask is set.',
  'all array shapes, axes, start indices and masks',
  'Tests cover a few shapes; out-of-range starts, batched indices and empty masks are not sampled.',
  ['datatypes/operations.py'], [('slicing, update_by_*, select_by_onehot, masked_mean, compare_all_leaf_nodes', 'datatypes/operations.py')])
p('P16', 'Observations are the recent past seen from the observer\'s frame',
  'An observation holds, for each observed object, the last configured number of simulated steps up to the current one (nothing from the future), the nearest map points and the traffic lights, all expressed in the coordinate frame requested (global, the ego vehicle\'s, or each observer\'s own). Each observer is flagged as the ego of its own observation and of no other; transforming changes planar coordinates and headings only, never identities, sizes or time, and entries stay valid only while the frame\'s reference object is valid.',
  'all states, timesteps, history lengths, numbers of objects, batch shapes and frames',
  'Tests check shapes and one ego; frames of other observers and early timesteps are not sampled.',
  ['datatypes/observation.py'], [('observation_from_state, sdc_observation_from_state', 'datatypes/observation.py'), ('transform_observation', 'datatypes/observation.py')], ('inputs', 'configurations'))
p('P17', 'Nearest-roadgraph filtering returns the k nearest valid points intact',
  'Filtering the map around a reference point returns exactly the k valid points nearest in the plane (invalid ones only when fewer than k valid points exist), in order of distance, with every attribute of each returned point unchanged, including its identifier and type. When exactly k points exist they are returned as they are; asking for more points than exist is rejected.',
  'all maps, reference points, k, identifiers and batch shapes',
  'Tests use small identifiers and a few points.',
  ['datatypes/roadgraph.py'], [('filter_topk_roadgraph_points', 'datatypes/roadgraph.py')])
p('P18', 'The overlap metric flags exactly the objects overlapping a valid object',
  "At the current simulated step an object's overlap metric is one exactly when its oriented box intersects the box of at least one other object that is valid at that step, and zero otherwise. It depends on nothing but the current simulated step, and its validity mask is the objects' own current validity.",
  'all scenes, validity patterns, timesteps and batch shapes',
  'Tests use a handful of scenes.',
  ['metrics/overlap.py', 'utils/geometry.py'], [('OverlapMetric', 'metrics/overlap.py')])
p('P19', 'Log divergence is the distance to the logged position',
  'The log divergence of an object at the current step is the planar distance between its simulated and logged positions at that step. It is marked valid exactly when both the simulated and the logged object are valid at that step.',
  'all simulated and logged trajectories, timesteps and validity patterns',
  'Tests use a couple of fixed trajectories.',
  ['metrics/imitation.py'], [('LogDivergenceMetric', 'metrics/imitation.py')])
p('P20', 'Off-road and wrong-way follow the nearest map elements',
  'An object is flagged off-road exactly when at least one of its four box corners lies on the positive side of its nearest road edge: nearest means the first of the valid road-edge points with the least distance in x, y and doubled height difference, and the side is that of the edge direction there (and, where it is the more permissive, of the preceding point of the same edge). The metric is valid for every object. The wrong-way metric is the distance from the ego to the nearest valid point of its paths when that is at least 3.5 m, otherwise zero, and is invalid (and zero) when there is no valid path point.',
  'all maps, boxes and validity patterns',
  'Tests use small synthetic maps.',
  ['metrics/roadgraph.py'], [('is_offroad, compute_signed_distance_to_nearest_road_edge_point', 'metrics/roadgraph.py'), ('WrongWayMetric', 'metrics/roadgraph.py')])
p('P21', 'Route metrics measure the ego against its route',
  'The off-route metric is the distance from the ego to its nearest valid on-route path point when that exceeds 5 m or exceeds the distance to the nearest valid off-route point by more than 2 m, otherwise zero. Progression is the arc length, along the on-route path nearest to the ego, of the valid point nearest to the ego, relative to those of the points nearest to its first and last logged positions (one if these two coincide). Both are invalid and zero when the ego is not valid or no valid on-route point exists.',
  'all paths, ego positions and validity patterns', 'Tests use tiny hand-made paths.',
  ['metrics/route.py'], [('OffRouteMetric, ProgressionMetric', 'metrics/route.py')])
p('P22', 'Kinematic infeasibility is exceedance of acceleration or steering limits',
  'From the second step on, an object is flagged infeasible exactly when both the previous and the current simulated steps are valid and the acceleration, or while moving the steering curvature, inferred between them by the bicycle model exceeds its configured limit by more than the tolerance 0.001. The metric is valid exactly where both steps are, and zero elsewhere.',
  'all trajectories, limits, step times and validity patterns', 'Tests use a couple of trajectories.',
  ['metrics/comfort.py'], [('KinematicsInfeasibilityMetric', 'metrics/comfort.py')])
p('P23', 'Rewards are the configured linear combination of valid metrics',
  'The reward of each object is the weighted sum of the configured metrics of its own scene at the current state, each metric contributing zero where it is not valid; metrics that exist once per scene count for every object of the scene. Objects outside the mask of controlled objects get zero. Weights apply to the metric of the same name, rewards are float values of shape (batch, objects) for every configuration, and all are zero when reward computation is switched off.',
  'all weights, metric values, masks and batch shapes', 'Tests use one configuration.',
  ['rewards/linear_combination_reward.py'], [('LinearCombinationReward.compute', 'rewards/linear_combination_reward.py')], ('inputs', 'configurations'))
p('P24', 'The planning environment exposes exactly the ego vehicle',
  "In the planning environment the action, reward and metrics concern the ego vehicle only, wherever it sits in the object list, in every scene of a batch: rewards and the built-in per-object metrics are the ego's entries (kinematic infeasibility counts only after the first step following the warm-up), and inferred actions are the ego's. A step moves the ego by the planner's action through the wrapped dynamics and, without simulated agents, every other object by the log, and changes nothing but the next simulated step and the timestep. The planning dynamics applies the one action to every controlled object and hands on whether new objects may appear.",
  'all scenes, ego positions in the object list, actions and agents', 'Tests use one scene.',
  ['env/planning_agent_environment.py'], [('PlanningAgentEnvironment', 'env/planning_agent_environment.py'), ('PlanningAgentDynamics', 'env/planning_agent_environment.py')], ('inputs', 'configurations'))
p('P25', 'Simulated agents control exactly the objects assigned to them',
  "When simulated agents run inside the planning environment, each object is driven by the last agent whose control mask selects it, otherwise the ego is driven by the planner and all others follow the log; objects whose logged box overlaps another at the first logged step are never handed to agents. An agent's action at an object it does not control has no effect. Each agent receives its own parameters, its own state and its own random key, and its new state replaces its old one.",
  'all agent sets, masks and actions', 'Tests use one or two agents on one scene.',
  ['env/planning_agent_environment.py', 'agents/actor_core.py'], [('step with sim agents', 'env/planning_agent_environment.py')], ('inputs', 'configurations'))
p('P26', 'Merging actors keeps each actor to its own objects',
  'Merging the outputs of several actors gives every object the action of the actor controlling it, values and validity alike; an object controlled by no actor keeps the output of the first. For controlled objects the result does not depend on the order of the actors, whose control masks are disjoint.',
  'all numbers of actors, masks and actions', 'Tests use two or three fixed actors.',
  ['agents/actor_core.py'], [('merge_actions', 'agents/actor_core.py')])
p('P27', 'Route followers and IDM drive along the logged path without reversing',
  "A route-following agent moves from its current position along its current heading by the mean of its old and new speed times the step time, and is then placed on the tangent of its own log at the nearest valid logged point, with that point's heading; its velocity is the new speed along its current heading until the end of the log is reached, and its update is valid exactly when the object is valid now and its speed update is (optionally not when still moving at the end of the log). The intelligent-driver agent never drives backwards: its new speed is max(0, v + a dt) with a the IDM acceleration for the nearest of the points ahead of it at which its box would overlap another valid object, with that object's speed, and free-road acceleration when there is none. Agents built from a configuration control exactly the ego or all others.",
  'all paths, speeds, gaps and parameters', 'Tests use a few scenes.',
  ['agents/waypoint_following_agent.py', 'agents/sim_agent.py', 'agents/agent_builder.py'], [('WaypointFollowingPolicy, IDMRoutePolicy', 'agents/waypoint_following_agent.py')], ('inputs', 'configurations'))
p('P28', 'Constant-speed agents keep speed and heading',
  'A constant-speed agent moves each controlled object by its speed times the step time along its current heading, keeps the heading, and reports velocity of that speed in that direction. Its actions are valid exactly for objects that are valid now.',
  'all states and speeds, given or taken from the current step', 'There is a single test scene.',
  ['agents/constant_speed.py'], [('create_constant_speed_actor', 'agents/constant_speed.py')])
p('P29', 'Dataset parsing maps every field to its place',
  "Building a simulator state from a decoded dataset record puts every attribute of every object, traffic light, map point and route at its own place, for each time key and batch shape: entries flagged 1 are valid, entries flagged 0 or -1 never are. Box sizes are the mean over an object's valid steps. The simulation starts at timestep 0 with the first logged step and nothing else. Loading record files yields every record, in order, as such a state.",
  'all record contents', 'The example record is not shipped to the tests that would check values.',
  ['dataloader/womd_factories.py', 'dataloader/womd_dataloader.py', 'dataloader/womd_utils.py'], [('simulator_state_from_womd_dict', 'dataloader/womd_factories.py')])
p('P30', 'Time aggregation concatenates past, current and future',
  'Aggregating a raw record concatenates the past, current and future values of every feature along time, in that order, drops the separate inputs, keeps all other features and adds the marker of past, current and future. Preprocessing keeps all values, except that headings are wrapped to one turn when aggregating, and cuts exactly the features of objects to the first of the configured number of objects.',
  'all record contents', 'Tests check a few features.',
  ['dataloader/womd_utils.py'], [('aggregate_time_tensors', 'dataloader/womd_utils.py')])
p('P31', 'State to dataset dictionary and back keeps the state',
  'Writing a simulator state to the dataset dictionary gives exactly the requested features: the simulated past and current steps, objects, lights and map points of the state, missing entries and the whole future flagged -1. Reading it back gives the same values and validity, with the future invalid; ids and types of invalid objects are lost.',
  'all states', 'One example is tested.',
  ['dataloader/womd_utils.py', 'dataloader/womd_factories.py'], [('simulator_state_to_womd_dict', 'dataloader/womd_utils.py')])
p('P32', 'The dm_env adapter keeps the episode protocol',
  "The dm_env adapter starts each episode with a first step without reward, then gives one transition per action with the wrapped environment's observation of the new state and the reward of the old state and the applied action. It ends with a last step exactly when the environment terminates or truncates (batches whose scenes do not end together are rejected), and discount is zero only on termination. Stepping before a reset or after the last step is rejected and changes nothing. The ego-only factory rejects other controlled objects and runs the configured simulated agents.",
  'all environments, states and action sequences', 'Tests step one scene.',
  ['env/wrappers/dm_env_wrapper.py'], [('DMEnvWrapper', 'env/wrappers/dm_env_wrapper.py')], ('inputs', 'histories'))
p('P33', 'The Brax adapter reports the wrapped environment',
  "Each Brax adapter time step carries the wrapped environment's next state, its observation, the reward and the metrics of the state acted in, done when the next state terminates or truncates, and discount zero exactly on termination. A reset gives the reset state and its observation with zero reward, discount one and initial metrics.",
  'all environments, states and actions', 'Tests step one scene.',
  ['env/wrappers/brax_wrapper.py'], [('BraxWrapper', 'env/wrappers/brax_wrapper.py')], ('inputs', 'histories'))
p('P34', 'Metrics requested by name are run and reported under that name',
  'Running metrics returns exactly one result per requested name, equal to that of the metric registered under it on the given state, whatever else is requested and in whatever order. Unknown names, in metric requests or in reward configurations, and duplicate registrations are rejected.',
  'all configurations and registered metrics', 'Tests use one configuration.',
  ['metrics/metric_factory.py', 'config.py'], [('run_metrics', 'metrics/metric_factory.py')], ('inputs', 'configurations'))
p('P35', 'Derived trajectory quantities are consistent with the stored ones',
  'Speed is the length of the velocity and heading of motion its direction (both -1 where invalid); box corners lie at half length and half width from the centre along and across the heading, in a fixed order; stacked fields list the stored values in the requested order, and controlled-object masks follow the object-type selection (ego only, modeled, valid; others are rejected).',
  'all trajectories', 'Tests use a few values.',
  ['datatypes/object_state.py', 'datatypes/operations.py'], [('Trajectory properties', 'datatypes/object_state.py')])


# ------------------------------------------------------------------ output
TECH = ('contract-based deductive verification: pre/postconditions on the real functions, verification conditions generated from the '
        'jaxprs that JAX traces from /repo at symbolic dimensions, discharged by z3/cvc5 for all sizes and values')
NOTES = {}


def claimed():
  import re
  out = set()
  d = os.path.join(ROOT, 'contracts')
  for f in sorted(os.listdir(d)):
    if f.startswith('c_') and f.endswith('.py'):
      s = open(os.path.join(d, f)).read()
      out |= set(re.findall(r"'(P\d\d)'", s))
  return out


def main():
  got = claimed()
  for q in P:
    assert len(q['title']) <= 80, q['id']
  with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for q in P:
      f.write(json.dumps(q) + '\n')
  checks, na = [], []
  for q in P:
    i = q['id']
    if i in got:
      note = NOTES.get(i, '')
      checks.append(dict(property=i, quick_cmd=f'./check.sh {i}', thorough_cmd=f'./check.sh {i} --tier thorough', technique=TECH, level='proof',
                         level_note=(note + ' ' if note else '') + 'Floats are extended reals without rounding, int32 unbounded; remaining assumptions are listed in the evidence and in DESIGN.md.'))
    else:
      na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
  man = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na)
  json.dump(man, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
  print(len(checks), 'checks', len(na), 'not applicable')


NA = {}
if __name__ == '__main__':
  main()
