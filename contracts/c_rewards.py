"""Metric registry and rewards (P34, P23)."""
from .common import *
import jax
import jax.numpy as jnp
from waymax import config as _config
from waymax import env as _env
from waymax import metrics as M
from waymax.metrics import abstract_metric, roadgraph as MR, route as MT, comfort as MC, overlap as MO, imitation as MI
from waymax.rewards import linear_combination_reward as LR
from .c_env import env_config, Probe, OT

PB = [(), ('B',)]
CLASSES = dict(log_divergence=MI.LogDivergenceMetric, overlap=MO.OverlapMetric, offroad=MR.OffroadMetric, kinematic_infeasibility=MC.KinematicsInfeasibilityMetric,
               sdc_wrongway=MR.WrongWayMetric, sdc_progression=MT.ProgressionMetric, sdc_off_route=MT.OffRouteMetric)


class Stub(abstract_metric.AbstractMetric):
  """An arbitrary metric: the values are arbitrary data of the state.  k selects which data, so that two stubs differ."""

  def __init__(self, k, per_object):
    self.k, self.per_object = k, per_object

  def compute(self, s):
    if self.per_object:
      v, ok = getattr(s.log_trajectory, XYV[self.k])[..., 0], getattr(s.sim_trajectory if self.k else s.log_trajectory, 'valid')[..., 0]
    else:
      v, ok = getattr(s.log_traffic_light, 'xyz'[self.k])[..., 0, 0], s.log_traffic_light.valid[..., self.k, 0]
    return abstract_metric.MetricResult(value=v, valid=ok)


STUBS = {f'probe_{"obj" if o else "ego"}_{k}': Stub(k, o) for o in (True, False) for k in (0, 1)}


def register():
  for n, s in STUBS.items():
    if n not in M.get_metric_names():
      M.register_metric(n, s)


def stub_ref(st, name, pre, i):
  """(value, valid) of stub metric `name` for scene pre and object i"""
  s = STUBS[name]
  if s.per_object:
    tr = st.sim_trajectory if s.k else st.log_trajectory
    return st.log_trajectory[XYV[s.k]][pre + (i, 0)], tr.valid[pre + (i, 0)]
  return st.log_traffic_light['xyz'[s.k]][pre + (0, 0)], st.log_traffic_light.valid[pre + (s.k, 0)]


def rejects(exc, f):
  try:
    f()
  except exc:
    return True
  return False


NAMES = tuple(CLASSES)
RV = [dict(names=(n,)) for n in NAMES] + [dict(names=NAMES), dict(names=NAMES[::-1]), dict(names=()), dict(names=('probe_obj_0', 'overlap', 'probe_ego_1')), dict(names=('probe_obj_1', 'probe_obj_0'))]


@contract('P34', 'run_metrics', 'run_metrics / register_metric / get_metric_names', dims=dict(N=(1, 3), T=(2, 3), M=(1, 4), P=(1, 2), K=(1, 3), B=(1, 2)), prefixes=[()], variants=RV, timeout=30)
def run_metrics(c):
  register()
  st = sim_state(c, c.prefix, t_hi=1, t_lo=1, R='M', P=('P', 'K'))
  names = c.v['names']
  o = c.call(lambda s: M.run_metrics(s, _config.MetricsConfig(metrics_to_run=names)), st)
  c.ensure_fact('names', set(o) == set(names), f'{sorted(o)} instead of {sorted(names)}')
  for n in names:
    f = STUBS[n] if n in STUBS else CLASSES[n]()
    ref = c.call(lambda s: f.compute(s), st)
    c.ensure_shape(n + '.shape', o[n].value, ref.value.shape)
    c.ensure(n + '.value', ref.value.shape, lambda *ix: same(o[n].value[ix], ref.value[ix]))
    c.ensure(n + '.valid', ref.value.shape, lambda *ix: Iff(o[n].valid[ix], ref.valid[ix]))


@contract('P34', 'registry', 'run_metrics / register_metric / get_metric_names')
def registry(c):
  register()
  c.ensure_fact('builtin', set(CLASSES) <= set(M.get_metric_names()))
  for n in list(CLASSES) + list(STUBS):
    c.ensure_fact('duplicate.' + n, rejects(ValueError, lambda: M.register_metric(n, Stub(0, True))))
  bad = lambda names: rejects(ValueError, lambda: M.run_metrics(None, _config.MetricsConfig(metrics_to_run=names)))
  c.ensure_fact('unknown', bad(('no_such_metric',)) and bad(('Overlap',)) and bad(('',)))
  c.ensure_fact('unknown.reward', rejects(ValueError, lambda: LR.LinearCombinationReward(_config.LinearCombinationRewardConfig(rewards={'no_such_metric': 1.0})))
                and rejects(ValueError, lambda: LR.LinearCombinationReward(_config.LinearCombinationRewardConfig(rewards={'overlap': 1.0, 'no_such_metric': 1.0}))))
  c.ensure_fact('default', set(_config.MetricsConfig().metrics_to_run) == {'log_divergence', 'overlap', 'offroad'})


# ------------------------------------------------------------------ rewards
def gw(r, s):
  return r.choice(np.array([-2.0, -1.0, -0.5, 0.0, 0.25, 1.0, 3.0]), s)


CFG = [(), ('probe_obj_0',), ('probe_ego_0',), ('probe_obj_1', 'probe_obj_0'), ('probe_obj_0', 'probe_ego_1'), ('probe_ego_0', 'probe_ego_1'), ('probe_ego_1', 'probe_obj_1', 'probe_obj_0')]


def total(st, names, w, pre, i):
  out = 0.0
  for n in names:
    v, ok = stub_ref(st, n, pre, i)
    out = out + w[n][()] * ite(ok, v, 0.0)
  return out


@contract('P23', 'LinearCombinationReward.compute', 'LinearCombinationReward.compute', dims=dict(N=(1, 4), T=(1, 3), B=(2, 3)), prefixes=PB, variants=[dict(names=n) for n in CFG])
def reward(c):
  register()
  pre, N = c.prefix, c.dim('N')
  names = c.v['names']
  st = sim_state(c, pre, t_hi=1)
  mask = c.leaf('mask', pre + (N,), b_)
  w = {n: c.leaf('w_' + n, (), f32, gen=gw) for n in names}
  act = action(c, pre + (N,), 2)

  def f(s, a, m, w):
    return LR.LinearCombinationReward(_config.LinearCombinationRewardConfig(rewards={n: w[n] for n in names})).compute(s, a, m)
  o = c.call(f, st, act, mask, w)
  c.ensure_shape('shape', o, pre + (N,))
  c.ensure_fact('dtype', o.jdtype == np.float32, str(o.jdtype))
  c.ensure('value', pre + (N,), lambda *ix: near(o[ix], ite(mask[ix], total(st, names, w, ix[:-1], ix[-1]), 0.0)))


@contract('P23', 'BaseEnvironment.reward', 'BaseEnvironment.reward / get_control_mask', dims=dict(N=(1, 4), T=(1, 3), B=(2, 3)), prefixes=PB,
          variants=[dict(obj=o, names=n) for o in ('SDC', 'MODELED', 'VALID') for n in (('probe_obj_0', 'probe_ego_1'),)] + [dict(obj='VALID', names=())])
def env_reward(c):
  base_reward(c)


@contract('P23', 'BaseEnvironment.reward.off', 'BaseEnvironment.reward with rewards switched off', dims=dict(N=(3, 3), T=(1, 3), B=(2, 3)), prefixes=PB,
          variants=[dict(obj='VALID', names=('probe_obj_0',), off=True)], bounded_note='three objects (the reward spec needs a concrete number of objects); any number of scenes and steps')
def env_reward_off(c):
  base_reward(c)


def base_reward(c):
  register()
  pre, N = c.prefix, c.dim('N')
  names, obj = c.v['names'], c.v['obj']
  st = sim_state(c, pre, t_hi=1)
  act = action(c, pre + (N,), 2)
  ws = {n: [0.5, -2.0][k] for k, n in enumerate(names)}
  cfg = env_config(c, controlled_object=OT[obj], compute_reward=not c.v.get('off'), rewards=_config.LinearCombinationRewardConfig(rewards=ws))
  o = c.call(lambda s, a: _env.BaseEnvironment(Probe(), cfg).reward(s, a), st, act)
  c.ensure_shape('shape', o, pre + (N,))
  c.ensure_fact('dtype', o.jdtype == np.float32, str(o.jdtype))
  md = st.object_metadata
  mask = lambda ix: {'SDC': md.is_sdc, 'MODELED': md.is_modeled, 'VALID': md.is_valid}[obj][ix]

  def ref(ix):
    if c.v.get('off'):
      return 0.0
    out = 0.0
    for n in names:
      v, ok = stub_ref(st, n, ix[:-1], ix[-1])
      out = out + ws[n] * ite(ok, v, 0.0)
    return ite(mask(ix), out, 0.0)
  c.ensure('value', pre + (N,), lambda *ix: near(o[ix], ref(ix)))




@contract('P23', 'default_reward', 'BaseEnvironment.reward with the default configuration', dims=dict(N=(1, 3), T=(1, 3), M=(1, 4), B=(2, 3)), prefixes=PB, timeout=30)
def default_reward(c):
  """minus one for an overlap and minus one for being off-road, of the controlled (ego) object"""
  pre, N = c.prefix, c.dim('N')
  st = sim_state(c, pre, t_hi=1, R='M')
  act = action(c, pre + (N,), 2)
  cfg = _config.EnvironmentConfig(max_num_objects=c.pydim('N'))
  o = c.call(lambda s, a: _env.BaseEnvironment(Probe(), cfg).reward(s, a), st, act)
  ov = c.call(lambda s: MO.OverlapMetric().compute(s), st)
  of = c.call(lambda s: MR.OffroadMetric().compute(s), st)
  c.ensure_shape('shape', o, pre + (N,))

  def ref(ix):
    return ite(st.object_metadata.is_sdc[ix], -ite(ov.valid[ix], ov.value[ix], 0.0) - ite(of.valid[ix], of.value[ix], 0.0), 0.0)
  c.ensure('value', pre + (N,), lambda *ix: near(o[ix], ref(ix)))
