"""Planning environment (P24, P25)."""
from .common import *
import jax
import jax.numpy as jnp
from waymax import config as _config
from waymax import dynamics
from waymax import metrics as M
from waymax.agents import actor_core
from waymax.env import planning_agent_environment as PE
from waymax.metrics import roadgraph as MR, route as MT, comfort as MC, overlap as MO, imitation as MI
from .c_env import env_config, Probe, OT
from .c_geometry import overlap_ref
from .c_rewards import register, stub_ref, STUBS, rejects, CLASSES

PB = [(), ('B',)]
DE = dict(N=(1, 4), T=(3, 6), B=(2, 3))


class Recall(Probe):
  """Dynamics whose inferred actions show the object and the step they were inferred from."""

  def inverse(self, trajectory, metadata, timestep):
    cur = datatypes.dynamic_slice(trajectory, timestep, 1, axis=-1)
    return datatypes.Action(data=jnp.stack([cur.x[..., 0], cur.y[..., 0]], axis=-1), valid=cur.valid)


class Agent(actor_core.WaymaxActorCore):
  """A simulated agent with arbitrary outputs: they are its parameters."""

  def __init__(self, k):
    self.k = k

  def init(self, rng, state):
    return (state.timestep + self.k, rng)

  def select_action(self, params, state, actor_state, rng):
    return actor_core.WaymaxActorOutput(actor_state=(actor_state[0] + params['inc'] + state.timestep, rng), action=params['action'], is_controlled=params['mask'])

  @property
  def name(self):
    return f'agent{self.k}'


def is_ego(pos, ix):
  return ix[-1] == pos[ix[:-1]]


def onehot(c, st):
  """the ego index leaf of every scene, and a function placing the ego there"""
  N, n = st.sim_trajectory.x.shape[-2], c.pydim('N')
  pre = c.prefix
  pos = c.leaf('ego', pre, i32, where=lambda v, *ix: And(0 <= v, v < N), gen=lambda r, s: r.integers(0, int(S.raw(N)), s))
  if not pre:
    c.hint(pos[()])

  def place(s, p):
    md = s.object_metadata
    return s.replace(object_metadata=md.replace(is_sdc=jnp.arange(n) == p[..., None]))
  return pos, place


def ego_action(c, nd=5):
  return datatypes.Action(data=c.leaf('a_data', c.prefix + (nd,), f32, gen=g_act), valid=c.leaf('a_valid', c.prefix + (1,), b_))


# ------------------------------------------------------------------ dynamics of the planning agent
@contract('P24', 'PlanningAgentDynamics.compute_update', 'PlanningAgentDynamics.compute_update / action_spec', dims=DE, prefixes=PB)
def compute_update(c):
  pre, N = c.prefix, c.dim('N')
  tr = trajectory(c, pre + (N, 1))
  act = ego_action(c)
  o = c.call(lambda a, t: PE.PlanningAgentDynamics(Probe()).compute_update(a, t), act, tr)
  sh = pre + (N, 1)
  for k, f in enumerate(XYV):
    c.ensure_shape('shape.' + f, o[f], sh)
    c.ensure(f, sh, lambda *ix: near(o[f][ix], act.data[ix[:-2] + (k,)] + tr[f][ix]))
  c.ensure('valid', sh, lambda *ix: Iff(o.valid[ix], And(act.valid[ix[:-2] + (0,)], tr.valid[ix])))
  a, b = PE.PlanningAgentDynamics(Probe()).action_spec(), Probe().action_spec()
  c.ensure_fact('action_spec', a.shape == b.shape and np.array_equal(a.minimum, b.minimum) and np.array_equal(a.maximum, b.maximum))


@contract('P24', 'PlanningAgentDynamics.forward', 'PlanningAgentDynamics.forward', dims=DE, prefixes=PB, variants=[dict(new=True), dict(new=False), dict()])
def forward(c):
  pre, N, T = c.prefix, c.dim('N'), c.dim('T')
  sim, log = trajectory(c, pre + (N, T), 'sim_'), trajectory(c, pre + (N, T), 'log_')
  ctl = c.leaf('ctl', pre + (N,), b_)
  t = timestep(c, (), T)
  act = ego_action(c)
  kw = dict(allow_new_objects=c.v['new']) if 'new' in c.v else {}
  o = c.call(lambda a, s, l, m, t: PE.PlanningAgentDynamics(Probe()).forward(a, s, l, m, t, **kw), act, sim, log, ctl, t)
  q = t[()]
  sh = pre + (N,)
  for k, f in enumerate(XYV):
    c.ensure('next.' + f, sh, lambda *ix: near(o[f][ix + (q + 1,)], ite(ctl[ix], act.data[ix[:-1] + (k,)] + sim[f][ix + (q,)], log[f][ix + (q + 1,)])))
  for f in all_fields(sim):
    c.ensure_shape('shape.' + f, o[f], pre + (N, T))
    c.ensure('others.' + f, pre + (N, T), lambda *ix: Implies(ix[-1] != q + 1, same(o[f][ix], sim[f][ix])))

  def v(*ix):
    now, nxt = sim.valid[ix + (q,)], log.valid[ix + (q + 1,)]
    other = nxt if c.v.get('new', True) else And(now, nxt)
    return Iff(o.valid[ix + (q + 1,)], Or(And(ctl[ix], now), other))
  c.ensure('next_valid', sh, v)


@contract('P24', 'PlanningAgentDynamics.inverse', 'PlanningAgentDynamics.inverse', dims=DE, prefixes=PB)
def inverse(c):
  pre, N, T = c.prefix, c.dim('N'), c.dim('T')
  st = sim_state(c, pre)
  pos, place = onehot(c, st)

  def f(s, p):
    s = place(s, p)
    return PE.PlanningAgentDynamics(Recall()).inverse(s.log_trajectory, s.object_metadata, s.timestep)
  o = c.call(f, st, pos)
  c.ensure_shape('shape', o.data, pre + (2,))
  c.ensure_shape('shape.valid', o.valid, pre + (1,))
  L = st.log_trajectory
  at = lambda ix: ix + (pos[ix], tstep(st, ix))
  c.ensure('x', pre, lambda *ix: o.data[ix + (0,)] == L.x[at(ix)])
  c.ensure('y', pre, lambda *ix: o.data[ix + (1,)] == L.y[at(ix)])
  c.ensure('valid', pre, lambda *ix: Iff(o.valid[ix + (0,)], L.valid[at(ix)]))


# ------------------------------------------------------------------ the environment
def p_env(c, agents=(), params=(), dyn=None, **kw):
  kw.setdefault('controlled_object', OT.SDC)
  return PE.PlanningAgentEnvironment(dyn or Probe(), env_config(c, **kw), sim_agent_actors=agents, sim_agent_params=params)


def p_state(st, actors=()):
  return PE.PlanningAgentSimulatorState(**{f: st[f] for f in st.__dataclass_fields__}, sim_agent_actor_states=list(actors))


@contract('P24', 'env.reset', 'PlanningAgentEnvironment.reset', dims=dict(N=(1, 4), T=(4, 7), B=(2, 3)), prefixes=PB, variants=[dict(init=1, n=0), dict(init=3, n=2), dict(init=2, n=2, rng=True)])
def p_reset(c):
  init, n = c.v['init'], c.v['n']
  st = sim_state(c, c.prefix, R='N', P=('N', 'T'), t_lo=-1, t_hi=1)
  agents = [Agent(3), Agent(7)][:n]
  if c.v.get('rng'):
    key = c.key()
    out = c.call(lambda s, k: p_env(c, agents, [{}] * n, init_steps=init).reset(s, k), st, key)
    ks = c.call(lambda k: jax.random.split(k, n), key)
  else:
    out = c.call(lambda s: p_env(c, agents, [{}] * n, init_steps=init).reset(s), st)
  L0, O = st.log_trajectory, out.sim_trajectory
  c.ensure_fact('type', type(out) is PE.PlanningAgentSimulatorState)
  c.ensure('timestep', out.timestep.shape, lambda *ix: out.timestep[ix] == init - 1)
  for f in all_fields(L0):
    c.ensure_shape('shape.' + f, O[f], L0[f].shape)
    c.ensure('warmup.' + f, L0[f].shape, lambda *ix: Implies(ix[-1] < init, same(O[f][ix], L0[f][ix])))
    if f == 'valid':
      c.ensure('future.valid', L0[f].shape, lambda *ix: Implies(ix[-1] >= init, Not(O.valid[ix])))
    else:
      c.ensure('future.' + f, L0[f].shape, lambda *ix: Implies(ix[-1] >= init, O[f][ix] == -1))
  for part in ('log_trajectory', 'log_traffic_light', 'object_metadata', 'roadgraph_points', 'sdc_paths'):
    ensure_same_tree(c, part, out[part], st[part])
  a = out.sim_agent_actor_states
  c.ensure_fact('actors', len(a) == n)
  for j, g in enumerate(agents):
    c.ensure(f'actor{j}', out.timestep.shape, lambda *ix: a[j][0][ix] == init - 1 + g.k)
    if c.v.get('rng'):
      c.ensure(f'actor{j}.key', (2,), lambda i: a[j][1][(i,)] == ks[j, i])
    else:
      c.ensure_fact(f'actor{j}.key', a[j][1] is None)


def on_off(st, ix, ctl, inj):
  """next validity of an object"""
  t = tstep(st, ix[:-1])
  now, nxt = st.sim_trajectory.valid[ix + (t,)], st.log_trajectory.valid[ix + (t + 1,)]
  return Or(And(ctl, now), nxt if inj else And(now, nxt))


@contract('P24', 'env.step', 'PlanningAgentEnvironment.step', dims=DE, prefixes=PB, variants=[dict(inj=True), dict(inj=False)])
def p_step(c):
  """without simulated agents: the ego moves by the action, the others by the log"""
  inj = c.v['inj']
  st = sim_state(c, c.prefix, R='N', P=('N', 'T'))
  act = ego_action(c)
  pos, place = onehot(c, st)
  env = lambda: p_env(c, allow_new_objects_after_warmup=inj)
  out, st1 = c.call(lambda s, p, a: (env().step(p_state(place(s, p)), a), place(s, p)), st, pos, act)
  S0, L0, O = st.sim_trajectory, st.log_trajectory, out.sim_trajectory
  sh = S0.x.shape[:-1]
  t_ = lambda ix: tstep(st, ix[:-1])
  ego = lambda ix: is_ego(pos, ix)
  for k, f in enumerate(XYV):
    c.ensure('next.' + f, sh, lambda *ix: near(O[f][ix + (t_(ix) + 1,)], ite(ego(ix), act.data[ix[:-1] + (k,)] + S0[f][ix + (t_(ix),)], L0[f][ix + (t_(ix) + 1,)])))
  c.ensure('next_valid', sh, lambda *ix: Iff(O.valid[ix + (t_(ix) + 1,)], on_off(st, ix, ego(ix), inj)))
  p_frame(c, st, st1, out)


def p_frame(c, st, st1, out):
  S0, O = st.sim_trajectory, out.sim_trajectory
  c.ensure_fact('type', type(out) is PE.PlanningAgentSimulatorState)
  c.ensure('timestep', st.timestep.shape, lambda *ix: out.timestep[ix] == st.timestep[ix] + 1)
  for f in all_fields(S0):
    c.ensure_shape('sim.shape.' + f, O[f], S0[f].shape)
    c.ensure('sim.others.' + f, S0[f].shape, lambda *ix: Implies(ix[-1] != tstep(st, ix[:-2]) + 1, same(O[f][ix], S0[f][ix])))
  for part in ('log_trajectory', 'log_traffic_light', 'object_metadata', 'roadgraph_points', 'sdc_paths'):
    if st[part] is not None:
      ensure_same_tree(c, part, out[part], st1[part])


@contract('P24', 'env.misc', 'PlanningAgentEnvironment.__init__ / observe / specs', dims=DE)
def p_misc(c):
  st = sim_state(c, c.prefix)
  out = c.call(lambda s: p_env(c).observe(p_state(s)), st)
  ensure_same_tree(c, 'observe', out.replace(sim_agent_actor_states=()) if hasattr(out, 'replace') else out, p_state(st).replace(sim_agent_actor_states=()))
  for o in ('MODELED', 'VALID', 'NON_SDC'):
    c.ensure_fact('rejects.' + o, rejects(ValueError, lambda: p_env(c, controlled_object=OT[o])))
  c.ensure_fact('rejects.params', rejects(ValueError, lambda: p_env(c, [Agent(0)], [])) and rejects(ValueError, lambda: p_env(c, [], [{}])))
  e = p_env(c)
  c.ensure_fact('specs', e.reward_spec().shape == () and e.discount_spec().shape == () and e.action_spec().data.shape == Probe().action_spec().shape and e.action_spec().valid.shape == (1,))


MULTI = ('log_divergence', 'overlap', 'offroad')


@contract('P24', 'env.metrics', 'PlanningAgentEnvironment.metrics', dims=dict(N=(1, 3), T=(2, 4), M=(1, 4), P=(1, 2), K=(1, 3), B=(2, 3)), prefixes=PB, timeout=30,
          variants=[dict(names=(n,)) for n in MULTI + ('sdc_off_route',)] + [dict(names=('kinematic_infeasibility',), init=2), dict(names=('kinematic_infeasibility', 'overlap'), init=2, t='scalar'), dict(names=('log_divergence', 'kinematic_infeasibility', 'sdc_wrongway'), init=1), dict(names=())])
def p_metrics(c):
  pre = c.prefix
  names = c.v['names']
  kim = 'kinematic_infeasibility' in names
  init = c.v.get('init', 11)
  st = sim_state(c, pre, t_hi=1, t_lo=1 if kim else 0, R='M', P=('P', 'K'), t_shape=() if c.v.get('t') == 'scalar' else None)
  pos, place = onehot(c, st)
  cfg = _config.MetricsConfig(metrics_to_run=names)
  o = c.call(lambda s, p: p_env(c, metrics=cfg, init_steps=init).metrics(p_state(place(s, p))), st, pos)
  c.ensure_fact('names', set(o) == set(names))
  for n in names:
    ref = c.call(lambda s, p: CLASSES[n]().compute(place(s, p)), st, pos)
    c.ensure_shape(n + '.shape', o[n].value, pre)
    c.ensure_shape(n + '.shape.valid', o[n].valid, pre)
    at = lambda ix: ix + (pos[ix],) if not n.startswith('sdc_') else ix

    def on(ix):
      return tstep(st, ix) >= init if n == 'kinematic_infeasibility' else True
    c.ensure(n + '.value', pre, lambda *ix: same(o[n].value[ix], ite(on(ix), ref.value[at(ix)], 0.0)))
    c.ensure(n + '.valid', pre, lambda *ix: Iff(o[n].valid[ix], And(on(ix), ref.valid[at(ix)])))


@contract('P24', 'env.reward', 'PlanningAgentEnvironment.reward', dims=dict(N=(1, 4), T=(2, 4), B=(2, 3)), prefixes=PB,
          variants=[dict(names=n) for n in ((), ('probe_obj_0',), ('probe_ego_0', 'probe_obj_1'))] + [dict(names=('probe_obj_0',), off=True)])
def p_reward(c):
  register()
  pre, names = c.prefix, c.v['names']
  st = sim_state(c, pre, t_hi=1)
  act = ego_action(c)
  pos, place = onehot(c, st)
  ws = {n: [0.5, -2.0][k] for k, n in enumerate(names)}
  rw = _config.LinearCombinationRewardConfig(rewards=ws)
  o = c.call(lambda s, p, a: p_env(c, rewards=rw, compute_reward=not c.v.get('off')).reward(p_state(place(s, p)), a), st, pos, act)
  c.ensure_shape('shape', o, pre)
  c.ensure_fact('dtype', o.jdtype == np.float32, str(o.jdtype))

  def ref(ix):
    out = 0.0
    for n in names if not c.v.get('off') else ():
      v, ok = stub_ref(st, n, ix, pos[ix])
      out = out + ws[n] * ite(ok, v, 0.0)
    return out
  c.ensure('value', pre, lambda *ix: near(o[ix], ref(ix)))


# ------------------------------------------------------------------ simulated agents
BOX = ('x', 'y', 'length', 'width', 'yaw')


@contract('P25', 'env.step.agents', 'PlanningAgentEnvironment.step with simulated agents', dims=dict(N=(1, 4), T=(3, 5), B=(2, 3)), prefixes=PB, timeout=30,
          variants=[dict(n=1, inj=True), dict(n=2, inj=False), dict(n=3, inj=True), dict(n=2, inj=True, rng=True)])
def p_step_agents(c):
  pre, N, n, inj = c.prefix, c.dim('N'), c.v['n'], c.v['inj']
  st = sim_state(c, pre)
  act = ego_action(c)
  pos, place = onehot(c, st)
  pa = [dict(action=action(c, pre + (N,), 5, f'g{j}_'), mask=c.leaf(f'g{j}_mask', pre + (N,), b_), inc=c.leaf(f'g{j}_inc', pre, i32)) for j in range(n)]
  ast = [c.leaf(f'g{j}_state', pre, i32) for j in range(n)]
  agents = [Agent(j) for j in range(n)]
  args = [st, pos, act, pa, ast] + ([c.key()] if c.v.get('rng') else [])

  def f(s, p, a, pa, ast, *k):
    env = p_env(c, agents, pa, allow_new_objects_after_warmup=inj)
    return env.step(p_state(place(s, p), [(x, None) for x in ast]), a, *k), place(s, p)
  out, st1 = c.call(f, *args)
  S0, L0, O = st.sim_trajectory, st.log_trajectory, out.sim_trajectory
  sh = S0.x.shape[:-1]
  t_ = lambda ix: tstep(st, ix[:-1])
  ego = lambda ix: is_ego(pos, ix)
  box = lambda pr, i: (lambda k: L0[BOX[k]][pr + (i, 0)])
  hit = {}

  def crash(ix):
    """the object's logged box intersects another one at the first step"""
    key = tuple(str(S.raw(i)) for i in ix) if not c.conc else id(ix)
    if key not in hit:
      hit[key] = (exists(N, lambda j: And(ix[-1] != j, overlap_ref(box(ix[:-1], j), box(ix[:-1], ix[-1])))), ix)
    return hit[key][0]
  takes = lambda j, ix: And(pa[j]['mask'][ix], Not(crash(ix)))

  def pick(ix, base, val):
    out = base
    for j in range(n):
      out = ite(takes(j, ix), val(j), out)
    return out
  for k, f in enumerate(XYV):
    c.ensure('next.' + f, sh, lambda *ix: near(O[f][ix + (t_(ix) + 1,)], pick(
        ix, ite(ego(ix), act.data[ix[:-1] + (k,)] + S0[f][ix + (t_(ix),)], L0[f][ix + (t_(ix) + 1,)]), lambda j: pa[j]['action'].data[ix + (k,)])))
  c.ensure('next_valid', sh, lambda *ix: Iff(O.valid[ix + (t_(ix) + 1,)], on_off(st, ix, Or(ego(ix), *[takes(j, ix) for j in range(n)]), inj)))
  p_frame(c, st, st1, out)
  a = out.sim_agent_actor_states
  c.ensure_fact('actors', len(a) == n)
  if c.v.get('rng'):
    ks = c.call(lambda k: jax.random.split(k, n), args[-1])
  for j in range(n):
    c.ensure(f'actor{j}', pre, lambda *ix: a[j][0][ix] == ast[j][ix] + pa[j]['inc'][ix] + tstep(st, ix))
    if c.v.get('rng'):
      c.ensure(f'actor{j}.key', (2,), lambda i: a[j][1][(i,)] == ks[j, i])
    else:
      c.ensure_fact(f'actor{j}.key', a[j][1] is None)


