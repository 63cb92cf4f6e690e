"""Expert, constant-speed and merged actors (P07, P26, P28)."""
from .common import *
import jax
import jax.numpy as jnp
from waymax import config as _config
from waymax import dynamics, env as _env
from waymax import agents
from waymax.agents import actor_core, constant_speed, expert
from waymax.dynamics import abstract_dynamics
from waymax.env.rollout import rollout_log_by_expert_sdc

OT = _config.ObjectType


class SpyModel(abstract_dynamics.DynamicsModel):
  """inverse shows which two steps (and which metadata) it was given"""

  def action_spec(self):
    return dynamics.StateDynamics().action_spec()

  def compute_update(self, action, trajectory):
    raise NotImplementedError

  def inverse(self, trajectory, metadata, timestep):
    def at(x, k):
      return jax.lax.dynamic_slice_in_dim(x, timestep + k, 1, axis=-1)
    cols = [at(trajectory[f], k).astype(jnp.float32) for k in (0, 1) for f in TRAJ_F + ('valid',)]
    cols.append(metadata.is_sdc[..., None].astype(jnp.float32))
    return datatypes.Action(data=jnp.concatenate(cols, axis=-1), valid=at(trajectory.valid, 0) & at(trajectory.valid, 1))


DT = dict(N=(1, 4), T=(2, 6), B=(1, 2))
P2 = [(), ('B',)]


@contract('P07', 'state_dynamics.compute_update', 'StateDynamics.compute_update', dims=dict(N=(1, 4), B=(1, 2)), prefixes=P2)
def sd_update(c):
  pre = c.prefix + (c.dim('N'),)
  tr = trajectory(c, pre + (1,))
  act = action(c, pre, 5)
  out = c.call(lambda a, t: dynamics.StateDynamics().compute_update(a, t), act, tr)
  for k, f in enumerate(XYV):
    c.ensure_shape('shape.' + f, out[f], pre + (1,))
    c.ensure(f, pre, lambda *ix: same(out[f][ix + (0,)], act.data[ix + (k,)]))
  c.ensure('valid', pre, lambda *ix: Iff(out.valid[ix + (0,)], act.valid[ix + (0,)]))


@contract('P07', 'state_dynamics.inverse', 'StateDynamics.inverse', dims=DT, prefixes=P2)
def sd_inverse(c):
  pre = c.prefix + (c.dim('N'),)
  tr = trajectory(c, pre + (c.dim('T'),))
  md = metadata(c, pre)
  ts = timestep(c, (), c.dim('T'))
  t = ts[()]
  out = c.call(lambda t, m, k: dynamics.StateDynamics().inverse(t, m, k), tr, md, ts)
  c.ensure_shape('shape', out.data, pre + (5,))
  for k, f in enumerate(XYV):
    c.ensure(f, pre, lambda *ix: same(out.data[ix + (k,)], tr[f][ix + (t + 1,)]))
  c.ensure('valid', pre, lambda *ix: Iff(out.valid[ix + (0,)], tr.valid[ix + (t + 1,)]))


def scalar_t(c):
  return () if c.v.get('t') == 'scalar' else None


@contract('P07', 'infer_expert_action', 'infer_expert_action', dims=DT, prefixes=P2, variants=[dict(m='state'), dict(m='spy'), dict(m='spy', t='scalar')])
def infer(c):
  pre = c.prefix + (c.dim('N'),)
  st = sim_state(c, c.prefix, t_shape=scalar_t(c))
  model = dynamics.StateDynamics() if c.v['m'] == 'state' else SpyModel()
  out = c.call(lambda s: expert.infer_expert_action(s, model), st)
  L0, S0 = st.log_trajectory, st.sim_trajectory
  t = lambda ix: tstep(st, ix[:-1])
  if c.v['m'] == 'state':
    for k, f in enumerate(XYV):
      c.ensure(f, pre, lambda *ix: same(out.data[ix + (k,)], L0[f][ix + (t(ix) + 1,)]))
    c.ensure('valid', pre, lambda *ix: Iff(out.valid[ix + (0,)], L0.valid[ix + (t(ix) + 1,)]))
    return
  fs = TRAJ_F + ('valid',)
  for k, f in enumerate(fs):
    num = (lambda v: ite(v, 1.0, 0.0)) if f == 'valid' else (lambda v: v)
    c.ensure('from_sim.' + f, pre, lambda *ix: same(out.data[ix + (k,)], num(S0[f][ix + (t(ix),)])))
    c.ensure('to_log.' + f, pre, lambda *ix: same(out.data[ix + (len(fs) + k,)], num(L0[f][ix + (t(ix) + 1,)])))
  c.ensure('metadata', pre, lambda *ix: same(out.data[ix + (2 * len(fs),)], ite(st.object_metadata.is_sdc[ix], 1.0, 0.0)))
  c.ensure('valid', pre, lambda *ix: Iff(out.valid[ix + (0,)], And(S0.valid[ix + (t(ix),)], L0.valid[ix + (t(ix) + 1,)])))


@contract('P07', 'expert_actor', 'create_expert_actor', dims=DT, prefixes=P2, variants=[dict(f='default'), dict(f='modeled'), dict(f='modeled', t='scalar')])
def expert_actor(c):
  pre = c.prefix + (c.dim('N'),)
  st = sim_state(c, c.prefix, t_shape=scalar_t(c))
  kw = {} if c.v['f'] == 'default' else dict(is_controlled_func=lambda s: s.object_metadata.is_modeled)
  actor = agents.create_expert_actor(dynamics.StateDynamics(), **kw)
  out = c.call(lambda s: actor.select_action({}, s, None, None), st)
  c.ensure_fact('stateless', out.actor_state is None)
  L0 = st.log_trajectory
  t = lambda ix: tstep(st, ix[:-1])
  for k, f in enumerate(XYV):
    c.ensure(f, pre, lambda *ix: same(out.action.data[ix + (k,)], L0[f][ix + (t(ix) + 1,)]))
  c.ensure('valid', pre, lambda *ix: Iff(out.action.valid[ix + (0,)], L0.valid[ix + (t(ix) + 1,)]))
  m = st.object_metadata.is_sdc if c.v['f'] == 'default' else st.object_metadata.is_modeled
  c.ensure('is_controlled', pre, lambda *ix: Iff(out.is_controlled[ix], m[ix]))


@contract('P07', 'expert_step', 'BaseEnvironment.step . create_expert_actor', dims=dict(N=(1, 4), T=(4, 6), B=(1, 2)), prefixes=P2,
          variants=[dict(obj='SDC', inj=True), dict(obj='VALID', inj=False), dict(obj='VALID', inj=True, t='scalar')])
def expert_step(c):
  """one step of an expert-driven simulation lands on the log; by induction over steps so does the episode"""
  pre = c.prefix + (c.dim('N'),)
  st = sim_state(c, c.prefix, t_shape=scalar_t(c))
  cfg = _config.EnvironmentConfig(max_num_objects=c.pydim('N'), controlled_object=OT[c.v['obj']], allow_new_objects_after_warmup=c.v['inj'],
                                  init_steps=2, metrics=_config.MetricsConfig(metrics_to_run=()), rewards=_config.LinearCombinationRewardConfig(rewards={}))
  env = _env.BaseEnvironment(dynamics.StateDynamics(), cfg)
  actor = agents.create_expert_actor(dynamics.StateDynamics(), lambda s: s.object_metadata.is_valid)
  out = c.call(lambda s: env.step(s, actor.select_action({}, s, None, None).action), st)
  t = lambda ix: tstep(st, ix[:-1])
  for f in XYV + ('timestamp_micros',):
    c.ensure(f, pre, lambda *ix: same(out.sim_trajectory[f][ix + (t(ix) + 1,)], st.log_trajectory[f][ix + (t(ix) + 1,)]))


@contract('P07', 'expert_rollout', 'rollout_log_by_expert_sdc', dims=dict(N=(1, 3), T=(4, 6), n=(1, 3), B=(1, 2), _=('T >= n + 2',)), prefixes=P2, timeout=40, variants=[dict(), dict(t='scalar')])
def expert_rollout(c):
  """an expert-driven rollout of any length coincides with the log"""
  pre = c.prefix + (c.dim('N'),)
  st = sim_state(c, c.prefix, t_shape=scalar_t(c))
  cfg = _config.EnvironmentConfig(max_num_objects=c.pydim('N'), controlled_object=OT.SDC, allow_new_objects_after_warmup=True,
                                  init_steps=2, metrics=_config.MetricsConfig(metrics_to_run=()), rewards=_config.LinearCombinationRewardConfig(rewards={}))
  env = _env.BaseEnvironment(dynamics.StateDynamics(), cfg)
  steps = c.pydim('n')
  out = c.call(lambda s: rollout_log_by_expert_sdc(s, env, dynamics.StateDynamics(), rollout_num_steps=steps), st, warm=False)
  n, o = c.dim('n'), out.state
  c.ensure_fact('type', type(o) is type(st))
  when = c.induct('timestep', n, lambda k, *ix: o.timestep[(k,) + ix[:o.timestep.ndim - 1]] == 1 + k, dims=o.timestep.shape[1:])
  for f in XYV:
    a, b = o.sim_trajectory[f], st.log_trajectory[f]

    def p(k, *ix):
      s = ix[-1]
      return Implies(s <= 1 + k, same(a[(k,) + ix], b[ix]))
    use = c.induct('on_log.' + f, n, p, dims=pre + (c.dim('T'),), using=(when,))


# ------------------------------------------------------------------ merging
@contract('P26', 'merge_actions', 'merge_actions', dims=dict(N=(1, 5), D=(1, 4), B=(1, 2)), prefixes=P2, variants=[dict(n=1), dict(n=2), dict(n=3), dict(n=4)])
def merge(c):
  n = c.v['n']
  pre = c.prefix + (c.dim('N'),)
  acts = [action(c, pre, c.dim('D'), tag=f'a{k}_') for k in range(n)]
  masks = [c.leaf(f'ctl{k}', pre, b_, gen=lambda r, s: r.random(s) < 0.4) for k in range(n)]
  for i in range(n):
    for j in range(i):
      if c.conc:
        masks[i].x = masks[i].x & ~masks[j].x
        masks[i].real = masks[i].x
      else:
        c.link([masks[i], masks[j]], lambda *ix, i=i, j=j: Not(And(masks[i][ix], masks[j][ix])))

  def f(aa, mm):
    os = [actor_core.WaymaxActorOutput(actor_state=None, action=a, is_controlled=m) for a, m in zip(aa, mm)]
    return actor_core.merge_actions(os), actor_core.merge_actions(os[::-1])
  out, rev = c.call(f, acts, masks)
  c.ensure_shape('shape', out.data, pre + (c.dim('D'),))
  for k in range(n):
    c.ensure(f'data.{k}', pre + (c.dim('D'),), lambda *ix: Implies(masks[k][ix[:-1]], same(out.data[ix], acts[k].data[ix])))
    c.ensure(f'valid.{k}', pre, lambda *ix: Implies(masks[k][ix], Iff(out.valid[ix + (0,)], acts[k].valid[ix + (0,)])))
    c.ensure(f'reversed.{k}', pre + (c.dim('D'),), lambda *ix: Implies(masks[k][ix[:-1]], And(same(rev.data[ix], out.data[ix]), Iff(rev.valid[ix[:-1] + (0,)], out.valid[ix[:-1] + (0,)]))))
  none = lambda ix: Not(Or(*[m[ix] for m in masks]))
  c.ensure('uncontrolled', pre + (c.dim('D'),), lambda *ix: Implies(none(ix[:-1]), And(same(out.data[ix], acts[0].data[ix]), Iff(out.valid[ix[:-1] + (0,)], acts[0].valid[ix[:-1] + (0,)]))))


@contract('P26', 'merge_actions.rejects', 'merge_actions')
def merge_rejects(c):
  try:
    actor_core.merge_actions([])
    ok = False
  except NotImplementedError:
    ok = True
  c.ensure_fact('empty', ok)


# ------------------------------------------------------------------ constant speed
@contract('P28', 'constant_speed_actor', 'create_constant_speed_actor', dims=DT, prefixes=P2,
          variants=[dict(speed=None), dict(speed=4.0), dict(speed=0.0), dict(speed=None, m='spy'), dict(speed=None, t='scalar')])
def cspeed(c):
  pre = c.prefix + (c.dim('N'),)
  st = sim_state(c, c.prefix, t_shape=scalar_t(c), t_hi=1)
  spy = c.v.get('m') == 'spy'
  model = SpyModel() if spy else dynamics.StateDynamics()
  sp = c.v['speed']
  actor = constant_speed.create_constant_speed_actor(model, lambda s: s.object_metadata.is_modeled, speed=sp)
  out = c.call(lambda s: actor.select_action({}, s, None, None), st)
  S0, md = st.sim_trajectory, st.object_metadata
  at = lambda f, ix: S0[f][ix + (tstep(st, ix[:-1]),)]
  vx = lambda ix: at('vel_x', ix) if sp is None else fl(sp) * cos(at('yaw', ix))
  vy = lambda ix: at('vel_y', ix) if sp is None else fl(sp) * sin(at('yaw', ix))
  dt = fl(0.1)
  want = dict(x=lambda ix: at('x', ix) + vx(ix) * dt, y=lambda ix: at('y', ix) + vy(ix) * dt, yaw=lambda ix: at('yaw', ix), vel_x=vx, vel_y=vy)
  c.ensure_fact('stateless', out.actor_state is None)
  d, v = out.action.data, out.action.valid
  c.ensure('is_controlled', pre, lambda *ix: Iff(out.is_controlled[ix], md.is_modeled[ix]))
  c.ensure('valid', pre, lambda *ix: Iff(v[ix + (0,)], And(at('valid', ix), md.is_modeled[ix])))
  if not spy:
    for k, f in enumerate(XYV):
      c.ensure(f, pre, lambda *ix: near(d[ix + (k,)], want[f](ix)))
    return
  fs = TRAJ_F + ('valid',)
  for k, f in enumerate(fs[:-1]):
    c.ensure('now.' + f, pre, lambda *ix: same(d[ix + (k,)], at(f, ix)))
    c.ensure('next.' + f, pre, lambda *ix: near(d[ix + (len(fs) + k,)], want[f](ix) if f in want else at(f, ix)))
