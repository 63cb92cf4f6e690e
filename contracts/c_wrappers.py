"""The dm_env and Brax adapters over an arbitrary environment (every function of it unknown)."""
from .common import *
import chex
import dm_env
import jax
import jax.numpy as jnp
from dm_env import specs
from jaxvc import sem
from waymax import metrics as _metrics
from waymax.env import abstract_environment, errors
from waymax.env.wrappers import brax_wrapper, dm_env_wrapper

op = sem.elementwise_op


@chex.dataclass
class St:
  x: jax.Array
  y: jax.Array

  @property
  def shape(self):
    return self.x.shape

  @property
  def is_done(self):
    return jnp.all(op('is_done', b_, self.x, self.y))


def sargs(s):
  return s.x, s.y


class Env(abstract_environment.AbstractEnvironment):
  """an environment with actions of size k"""

  def __init__(self, k, dtype=np.float32):
    self.k, self.dt = k, dtype

  def aargs(self, action):
    return [action.data[..., j] for j in range(self.k)] + [action.valid[..., 0]]

  def reset(self, state):
    return St(x=op('reset_x', i32, *sargs(state)), y=op('reset_y', f32, *sargs(state)))

  def step(self, state, action):
    a = self.aargs(action)
    return St(x=op('step_x', i32, *sargs(state), *a), y=op('step_y', f32, *sargs(state), *a))

  def observe(self, state):
    return {'o': op('obs', f32, *sargs(state))}

  def metrics(self, state):
    return {'m': _metrics.MetricResult(value=op('metric', f32, *sargs(state)), valid=op('metric_ok', b_, *sargs(state)))}

  def reward(self, state, action):
    return op('reward', f32, *sargs(state), *self.aargs(action))

  def termination(self, state):
    return op('term', b_, *sargs(state))

  def truncation(self, state):
    return op('trunc', b_, *sargs(state))

  def action_spec(self):
    return datatypes.Action(data=specs.BoundedArray((self.k,), self.dt, minimum=np.full((self.k,), -1, self.dt), maximum=np.full((self.k,), 2, self.dt)),
                            valid=specs.Array((1,), np.bool_))

  def reward_spec(self):
    return specs.Array((), np.float32)

  def discount_spec(self):
    return specs.BoundedArray((), np.float32, minimum=0., maximum=1.)

  def observation_spec(self):
    return {'o': specs.Array((), np.float32)}


# ------------------------------------------------------------------ the specification's own environment
def s_reset(s, ix):
  return uf('reset_x', i32, s.x[ix], s.y[ix]), uf('reset_y', f32, s.x[ix], s.y[ix])


def s_step(s, a):
  return uf('step_x', i32, *s, *a), uf('step_y', f32, *s, *a)


def flag(name, s):
  return uf(name, b_, *s)


def over(c, fn, pred):
  """for all / for some element of the batch"""
  if not c.prefix:
    return pred()
  return fn(c.prefix[0], lambda i: pred(i))


P2 = [(), ('B',)]
D = dict(B=(1, 3))
FIRST, MID, LAST = (int(x) for x in dm_env.StepType)


def dm_setup(c, nsteps, k):
  pre = c.prefix
  sc = [St(x=c.leaf(f'x{i}', pre, i32), y=c.leaf(f'y{i}', pre, f32)) for i in range(3)]
  acts = [c.leaf(f'a{i}', pre + ((k,) if c.v.get('squeeze') is None else ()), f32, gen=g_act) for i in range(nsteps)]
  return pre, sc, acts


def wrapper(sc, k):
  return dm_env_wrapper.DMEnvWrapper(iter(sc), Env(k))


def spec_states(sc, acts, k, n, c):
  """state(i)(ix): the state after i actions since the first reset"""
  def act(i, ix):
    a = acts[i]
    return [a[ix + ((j,) if a.ndim > len(ix) else ())] for j in range(k)] + [True]

  def state(i, ix):
    return s_reset(sc[1], ix) if i == 0 else s_step(state(i - 1, ix), act(i - 1, ix))
  return state, act


def same_state(a, ix, s):
  return And(a.x[ix] == s[0], near(a.y[ix], s[1]))


@contract('P32', 'dm_env.reset', 'DMEnvWrapper.reset', dims=D, prefixes=P2)
def dm_reset(c):
  pre, sc, _ = dm_setup(c, 0, 2)

  def run(sc):
    w = wrapper(sc, 2)
    try:
      w.simulation_state
      early = False
    except errors.SimulationNotInitializedError:
      early = True
    try:
      w.step(jnp.zeros(sc[0].shape + (2,)))
      early = False
    except errors.SimulationNotInitializedError:
      pass
    ts = w.reset()
    return dict(early=early, ts=ts, state=w.simulation_state)
  finished = lambda: over(c, forall, lambda *ix: flag('is_done', s_reset(sc[1], ix)))
  for p in c.paths(run, sc):
    with p:
      if p.exc is not None:
        c.ensure(f'raises[{p.k}]', (), lambda: And(isinstance(p.exc, errors.SimulationNotInitializedError), finished()))
        continue
      o = p.out
      c.ensure(f'not_finished[{p.k}]', (), lambda: Not(finished()))
      c.ensure(f'uninitialized_use_rejected[{p.k}]', (), lambda: o['early'][()] != 0)
      c.ensure_fact(f'no_reward[{p.k}]', o['ts'].reward is None and o['ts'].discount is None)
      c.ensure(f'first[{p.k}]', (), lambda: o['ts'].step_type[()] == FIRST)
      c.ensure(f'state[{p.k}]', pre, lambda *ix: same_state(o['state'], ix, s_reset(sc[1], ix)))
      c.ensure(f'observation[{p.k}]', pre, lambda *ix: near(o['ts'].observation['o'][ix], uf('obs', f32, *s_reset(sc[1], ix))))


@contract('P32', 'dm_env.step', 'DMEnvWrapper.step', dims=D, prefixes=P2, variants=[dict(n=1), dict(n=2), dict(n=3), dict(n=1, squeeze=1)],
          timeout=30)
def dm_step(c):
  """reset followed by n actions; the contract of the last step.  Between steps the wrapper's fields are what they were
  after a reset into the same state (remark `history closed`), so n = 1 covers the last step of a history of any length."""
  n = c.v['n']
  k = 1 if c.v.get('squeeze') else 2
  pre, sc, acts = dm_setup(c, n, k)

  def run(sc, acts):
    w = wrapper(sc, k)
    w.reset()
    v0, s0 = dict(vars(w)), w.simulation_state
    for a in acts[:-1]:
      t = w.step(a)
      if t.last():
        return dict(early=1)
    ts = w.step(acts[-1])
    s1 = w.simulation_state
    if not ts.last():
      kept = lambda x, y: x is y or (x is s0 and y is s1) or (isinstance(x, (bool, int, str)) and type(x) is type(y) and x == y)
      closed.append(set(v0) == set(vars(w)) and all(kept(v0[f], y) for f, y in vars(w).items()))
    return dict(ts=ts, state=s1)
  closed = []
  state, act = spec_states(sc, acts, k, n, c)
  done = lambda i: lambda *ix: Or(flag('term', state(i, ix)), flag('trunc', state(i, ix)))
  all_done = lambda i: over(c, forall, done(i))
  any_done = lambda i: over(c, exists, done(i))
  paths = c.paths(run, sc, acts)
  c.remark('history closed', all(closed))
  for p in paths:
    with p:
      if p.exc is not None:
        if isinstance(p.exc, errors.SimulationNotInitializedError):
          c.ensure(f'refused[{p.k}]', (), lambda: over(c, forall, lambda *ix: flag('is_done', s_reset(sc[1], ix))))
        elif isinstance(p.exc, NotImplementedError):
          c.ensure(f'mixed[{p.k}]', (), lambda: Or(*[And(any_done(i), Not(all_done(i))) for i in range(1, n + 1)]))
        else:
          c.ensure(f'unexpected {type(p.exc).__name__}: {p.exc}[{p.k}]', (), lambda: V(False))
        continue
      o = p.out
      if 'early' in o:
        c.ensure(f'ended[{p.k}]', (), lambda: Or(*[all_done(i) for i in range(1, n)]))
        continue
      ts = o['ts']
      last = all_done(n)
      c.ensure(f'type[{p.k}]', (), lambda: ts.step_type[()] == ite(last, LAST, MID))
      c.ensure(f'not_mixed[{p.k}]', (), lambda: Or(last, Not(any_done(n))))
      c.ensure_shape(f'reward.shape[{p.k}]', ts.reward, pre)
      c.ensure(f'state[{p.k}]', pre, lambda *ix: same_state(o['state'], ix, state(n, ix)))
      c.ensure(f'observation[{p.k}]', pre, lambda *ix: near(ts.observation['o'][ix], uf('obs', f32, *state(n, ix))))
      c.ensure(f'reward[{p.k}]', pre, lambda *ix: near(ts.reward[ix], uf('reward', f32, *state(n - 1, ix), *act(n - 1, ix))))
      d = ts.discount
      c.ensure(f'discount[{p.k}]', pre, lambda *ix: near(d[ix if d.ndim else ()], ite(flag('term', state(n, ix)), 0, 1)))


@contract('P32', 'dm_env.after_last', 'DMEnvWrapper.step / reset', dims=D, prefixes=P2)
def dm_after(c):
  """after the last step, further steps are rejected and leave the state alone until a reset starts the next scenario"""
  pre, sc, acts = dm_setup(c, 2, 2)

  def run(sc, acts):
    w = wrapper(sc, 2)
    w.reset()
    t = w.step(acts[0])
    if not t.last():
      return dict(mid=1)
    s1 = w.simulation_state
    rejected = 0
    for _ in range(2):
      try:
        w.step(acts[1])
      except errors.EpisodeAlreadyFinishedError:
        rejected += 1
    s2 = w.simulation_state
    t2 = w.reset()
    return dict(rejected=rejected, s1=s1, s2=s2, t2=t2, s3=w.simulation_state, t3=w.step(acts[1]))
  state, act = spec_states(sc, acts, 2, 2, c)
  for p in c.paths(run, sc, acts):
    with p:
      if p.exc is not None:
        ok = isinstance(p.exc, (errors.SimulationNotInitializedError, NotImplementedError))
        c.ensure(f'allowed {type(p.exc).__name__}[{p.k}]', (), lambda: V(ok))
        continue
      o = p.out
      if 'mid' in o:
        continue
      c.ensure(f'rejected[{p.k}]', (), lambda: o['rejected'][()] == 2)
      for s in ('s1', 's2'):
        c.ensure(f'kept.{s}[{p.k}]', pre, lambda *ix: same_state(o[s], ix, state(1, ix)))
      c.ensure_fact(f'fresh[{p.k}]', o['t2'].reward is None and o['t2'].discount is None)
      c.ensure(f'first[{p.k}]', (), lambda: o['t2'].step_type[()] == FIRST)
      c.ensure(f'next_scenario[{p.k}]', pre, lambda *ix: same_state(o['s3'], ix, s_reset(sc[2], ix)))
      nxt = lambda ix: s_step(s_reset(sc[2], ix), act(1, ix))
      c.ensure(f'then_steps[{p.k}]', pre, lambda *ix: And(
          near(o['t3'].observation['o'][ix], uf('obs', f32, *nxt(ix))), o['t3'].step_type[()] != FIRST,
          near(o['t3'].reward[ix], uf('reward', f32, *s_reset(sc[2], ix), *act(1, ix)))))


@chex.dataclass
class BObs:
  o: jax.Array
  q: jax.Array

  @property
  def batch_dims(self):
    return self.o.shape[:-1]


@contract('P32', 'dm_env.specs', 'DMEnvWrapper.*_spec', variants=[dict(k=1, sq=True), dict(k=1, sq=False), dict(k=3, sq=True)])
def dm_specs(c):
  k, sq = c.v['k'], c.v['sq']

  class E(Env):
    def observe(self, state):
      return BObs(o=jnp.zeros(state.shape + (5,), jnp.int32), q=jnp.zeros(state.shape + (7, 2), bool))
  for shape in ((), (2,), (2, 3)):
    e = E(k)
    sc = [St(x=jnp.zeros(shape, jnp.int32), y=jnp.zeros(shape))] * 3
    w = dm_env_wrapper.DMEnvWrapper(iter(sc), e, squeeze_scalar_actions=sq)
    a, d = w.action_spec(), e.action_spec().data
    c.ensure_fact('action.shape', tuple(a.shape) == (() if sq and k == 1 else (k,)))
    c.ensure_fact('action.range', a.dtype == d.dtype and np.all(a.minimum == -1) and np.all(a.maximum == 2))
    c.ensure_fact('reward_discount', w.reward_spec() == e.reward_spec() and w.discount_spec() == e.discount_spec())
    o = w.observation_spec()
    c.ensure_fact('observation', (tuple(o.o.shape), tuple(o.q.shape)) == ((5,), (7, 2)) and o.o.dtype == np.int32 and o.q.dtype == np.bool_)
    c.ensure_fact('wrapped', w.stateless_env is e)


# ------------------------------------------------------------------ Brax
@contract('P33', 'brax.reset', 'BraxWrapper.reset', dims=D, prefixes=P2)
def brax_reset(c):
  pre = c.prefix
  sc = St(x=c.leaf('x', pre, i32), y=c.leaf('y', pre, f32))
  w = brax_wrapper.BraxWrapper(Env(2), None, None)
  o = c.call(w.reset, sc)
  s = lambda ix: s_reset(sc, ix)
  c.ensure('state', pre, lambda *ix: same_state(o.state, ix, s(ix)))
  c.ensure('observation', pre, lambda *ix: near(o.observation['o'][ix], uf('obs', f32, *s(ix))))
  c.ensure_shape('reward.shape', o.reward, pre)
  c.ensure('reward', pre, lambda *ix: near(o.reward[ix], 0))
  c.ensure_shape('discount.shape', o.discount, pre)
  c.ensure('discount', pre, lambda *ix: near(o.discount[ix], 1))
  c.ensure('done', pre, lambda *ix: Iff(o.done[ix], flag('term', s(ix))))
  c.ensure_fact('metrics.names', set(o.metrics) == {'m'})
  c.ensure('metrics', pre, lambda *ix: And(near(o.metrics['m'].value[ix], uf('metric', f32, *s(ix))), Iff(o.metrics['m'].valid[ix], flag('metric_ok', s(ix)))))


@contract('P33', 'brax.step', 'BraxWrapper.step', dims=D, prefixes=P2)
def brax_step(c):
  pre = c.prefix
  s0 = St(x=c.leaf('x', pre, i32), y=c.leaf('y', pre, f32))
  act = action(c, pre, 2)
  ts = brax_wrapper.TimeStep(state=s0, observation={'o': c.leaf('o', pre, f32)}, reward=c.leaf('r', pre, f32), done=c.leaf('done', pre, b_),
                             discount=c.leaf('disc', pre, f32), metrics={}, info={})
  w = brax_wrapper.BraxWrapper(Env(2), None, None)
  o = c.call(w.step, ts, act)
  a = lambda ix: [act.data[ix + (0,)], act.data[ix + (1,)], act.valid[ix + (0,)]]
  b = lambda ix: (s0.x[ix], s0.y[ix])
  s = lambda ix: s_step(b(ix), a(ix))
  c.ensure('state', pre, lambda *ix: same_state(o.state, ix, s(ix)))
  c.ensure('observation', pre, lambda *ix: near(o.observation['o'][ix], uf('obs', f32, *s(ix))))
  c.ensure_shape('reward.shape', o.reward, pre)
  c.ensure('reward', pre, lambda *ix: near(o.reward[ix], uf('reward', f32, *b(ix), *a(ix))))
  c.ensure('done', pre, lambda *ix: Iff(o.done[ix], Or(flag('term', s(ix)), flag('trunc', s(ix)))))
  c.ensure('discount', pre, lambda *ix: near(o.discount[ix], ite(flag('term', s(ix)), 0, 1)))
  c.ensure_fact('discount.dtype', o.discount.jdtype == np.float32)
  c.ensure_fact('metrics.names', set(o.metrics) == {'m'})
  c.ensure('metrics', pre, lambda *ix: And(near(o.metrics['m'].value[ix], uf('metric', f32, *b(ix))), Iff(o.metrics['m'].valid[ix], flag('metric_ok', b(ix)))))


@contract('P33', 'brax.delegates', 'BraxWrapper.metrics / observe / reward / termination / truncation / specs', dims=D, prefixes=P2)
def brax_delegates(c):
  pre = c.prefix
  s0 = St(x=c.leaf('x', pre, i32), y=c.leaf('y', pre, f32))
  act = action(c, pre, 2)
  w = brax_wrapper.BraxWrapper(Env(2), None, None)
  o = c.call(lambda s, a: dict(m=w.metrics(s), o=w.observe(s), r=w.reward(s, a), te=w.termination(s), tr=w.truncation(s)), s0, act)
  b = lambda ix: (s0.x[ix], s0.y[ix])
  a = lambda ix: [act.data[ix + (0,)], act.data[ix + (1,)], act.valid[ix + (0,)]]
  c.ensure('metrics', pre, lambda *ix: And(near(o['m']['m'].value[ix], uf('metric', f32, *b(ix))), Iff(o['m']['m'].valid[ix], flag('metric_ok', b(ix)))))
  c.ensure('observe', pre, lambda *ix: near(o['o']['o'][ix], uf('obs', f32, *b(ix))))
  c.ensure('reward', pre, lambda *ix: near(o['r'][ix], uf('reward', f32, *b(ix), *a(ix))))
  c.ensure('termination', pre, lambda *ix: Iff(o['te'][ix], flag('term', b(ix))))
  c.ensure('truncation', pre, lambda *ix: Iff(o['tr'][ix], flag('trunc', b(ix))))
  e = Env(2)
  c.ensure_fact('specs', str(w.action_spec()) == str(e.action_spec()) and w.reward_spec() == e.reward_spec()
                and w.discount_spec() == e.discount_spec() and w.observation_spec() == e.observation_spec())


@contract('P32', 'make_sdc_dm_environment', 'make_sdc_dm_environment', sym=False, samples=1, variants=[dict(agents=0), dict(agents=1)],
          bounded_note='two configurations, one scenario: runs of the real code only')
def make_sdc(c):
  from waymax import config as _config, dynamics as _dynamics
  from waymax.env.wrappers import dm_env_wrapper as DW
  from waymax.agents import waypoint_following_agent as W_
  scen = scenario()
  cfgs = (_config.SimAgentConfig(agent_type=_config.SimAgentType.IDM, controlled_objects=_config.ObjectType.NON_SDC),) if c.v['agents'] else None
  asked = []

  def gen(config):
    asked.append(config)
    while True:
      yield scen
  old = DW.dataloader.simulator_state_generator
  DW.dataloader.simulator_state_generator = gen
  try:
    data = _config.DatasetConfig(path='here')
    for o in _config.ObjectType:
      if o != _config.ObjectType.SDC:
        try:
          DW.make_sdc_dm_environment(_dynamics.StateDynamics(), data, _config.EnvironmentConfig(controlled_object=o))
          rej = False
        except ValueError:
          rej = True
        c.ensure_fact(f'rejects {o.name}', rej)
    cfg = _config.EnvironmentConfig(controlled_object=_config.ObjectType.SDC, init_steps=2, max_num_objects=3, sim_agents=cfgs)
    w = DW.make_sdc_dm_environment(_dynamics.StateDynamics(), data, cfg)
    t = w.reset()
    c.ensure_fact('data', len(asked) >= 1 and all(a is data for a in asked))
    c.ensure_fact('first', t.first() and t.reward is None)
    s0 = w.simulation_state
    c.ensure_fact('warm up', int(s0.timestep) == 1)
    lx = np.asarray(scen.log_trajectory.x)
    a = np.array([50.0, 60.0, 0.5, 1.0, 2.0], f32)
    t = w.step(jnp.asarray(a))
    s1 = w.simulation_state
    c.ensure_fact('mid', t.mid() and int(s1.timestep) == 2)
    sim = s1.sim_trajectory
    c.ensure_fact('ego moved as told', abs(float(sim.x[0, 2]) - 50) < 1e-3 and abs(float(sim.y[0, 2]) - 60) < 1e-3)
    if c.v['agents']:
      env = w.stateless_env
      ag = W_.IDMRoutePolicy(lambda s: ~s.object_metadata.is_sdc)
      up = ag.update_trajectory(s0)
      c.ensure_fact('others follow the driver model', np.allclose(np.asarray(sim.x)[1:, 2], np.asarray(up.x)[1:, 0], atol=1e-3) and abs(float(sim.x[1, 2]) - lx[1, 2]) > 1e-2)
    else:
      c.ensure_fact('others follow the log', np.allclose(np.asarray(sim.x)[1:, 2], lx[1:, 2]))
    t = w.step(jnp.asarray(a))
    c.ensure_fact('last', t.last() and int(w.simulation_state.timestep) == 3)
  finally:
    DW.dataloader.simulator_state_generator = old


def scenario():
  """three objects, four steps: the ego, a car that the log moves in jumps, a parked car far away"""
  n, T_ = 3, 4
  x = np.stack([np.arange(T_) * 1.0, 20 + np.array([0, 1, 4, 9.0]), np.full(T_, -50.0)]).astype(f32)
  z = lambda v: jnp.full((n, T_), v, f32)
  tr = datatypes.Trajectory(x=jnp.asarray(x), y=z(0), z=z(0), vel_x=z(2.0), vel_y=z(0), yaw=z(0), length=z(4), width=z(2), height=z(1.5),
                            valid=jnp.ones((n, T_), bool), timestamp_micros=jnp.zeros((n, T_), jnp.int32))
  sdc = np.array([True, False, False])
  md = datatypes.ObjectMetadata(ids=jnp.arange(n), object_types=jnp.ones(n, jnp.int32), is_sdc=jnp.asarray(sdc), is_modeled=jnp.asarray(sdc), is_valid=jnp.ones(n, bool),
                                objects_of_interest=jnp.zeros(n, bool), is_controlled=jnp.zeros(n, bool))
  tl = datatypes.TrafficLights(x=jnp.zeros((1, T_)), y=jnp.zeros((1, T_)), z=jnp.zeros((1, T_)), state=jnp.zeros((1, T_), jnp.int32), lane_ids=jnp.zeros((1, T_), jnp.int32), valid=jnp.zeros((1, T_), bool))
  r1 = lambda v, t=f32: jnp.full((2,), v, t)
  rg = datatypes.RoadgraphPoints(x=r1(0), y=r1(90), z=r1(0), dir_x=r1(1), dir_y=r1(0), dir_z=r1(0), types=r1(15, jnp.int32), ids=r1(1, jnp.int32), valid=r1(True, bool))
  return datatypes.SimulatorState(sim_trajectory=tr, log_trajectory=tr, log_traffic_light=tl, object_metadata=md, timestep=jnp.zeros((), jnp.int32), roadgraph_points=rg, sdc_paths=None)


MODELS = dict(StateDynamics=5, DeltaLocal=3, DeltaGlobal=3, InvertibleBicycleModel=2, DiscreteBicycle=1)


@contract('P32', 'dm_env.multi_agent', 'DMEnvWrapper over BaseEnvironment (action_spec)', variants=[dict(model=m) for m in MODELS], sym=False, samples=1,
          bounded_note='one to three objects, one scenario: runs of the real code only')
def dm_multi_agent(c):
  from waymax import config as _config, dynamics as _dynamics, env as _env
  from waymax.dynamics import discretizer
  k = MODELS[c.v['model']]
  for n in (1, 2, 3):
    dyn = discretizer.DiscreteActionSpaceWrapper(_dynamics.InvertibleBicycleModel(), bins=np.array([3, 5])) if k == 1 else getattr(_dynamics, c.v['model'])()
    scen = scenario()
    cut = lambda v: jax.tree_util.tree_map(lambda x: x[:n], v)
    scen = scen.replace(log_trajectory=cut(scen.log_trajectory), sim_trajectory=cut(scen.sim_trajectory), object_metadata=cut(scen.object_metadata))
    e = _env.BaseEnvironment(dyn, _config.EnvironmentConfig(controlled_object=_config.ObjectType.VALID, init_steps=2, max_num_objects=n))
    w = dm_env_wrapper.DMEnvWrapper(iter([scen, scen]), e)
    one, a = dyn.action_spec(), w.action_spec()
    c.ensure_fact(f'shape[{n}]', tuple(a.shape) == (n, k) and a.dtype == one.dtype)
    c.ensure_fact(f'bounds[{n}]', all(np.array_equal(np.broadcast_to(a.minimum, (n, k))[i], np.broadcast_to(one.minimum, (k,))) and
                                      np.array_equal(np.broadcast_to(a.maximum, (n, k))[i], np.broadcast_to(one.maximum, (k,))) for i in range(n)))
    c.ensure_fact(f'valid[{n}]', tuple(e.action_spec().valid.shape) == (n, 1))
    c.ensure_fact(f'first[{n}]', w.reset().first())
    s0 = w.simulation_state
    act = jnp.zeros((n, k), one.dtype)
    t = w.step(act)
    want = e.step(s0, datatypes.Action(data=act, valid=jnp.ones((n, 1), bool)))
    c.ensure_fact(f'mid[{n}]', t.mid() and tuple(np.shape(t.reward)) == (n,))
    c.ensure_fact(f'step[{n}]', all(np.allclose(x, y, equal_nan=True) for x, y in zip(jax.tree_util.tree_leaves(w.simulation_state), jax.tree_util.tree_leaves(want))))
