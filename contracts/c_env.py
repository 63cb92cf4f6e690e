from .common import *
import jax
import jax.numpy as jnp
from waymax import config as _config
from waymax import dynamics, env as _env
from waymax.dynamics import abstract_dynamics


class Probe(abstract_dynamics.DynamicsModel):
  """An arbitrary dynamics model: any function of the current step and the action is an
  instance, since the action values are arbitrary; the sum shows which step it was given."""

  def action_spec(self):
    return dynamics.StateDynamics().action_spec()

  def compute_update(self, action, trajectory):
    d = action.data
    return datatypes.TrajectoryUpdate(
        x=d[..., 0:1] + trajectory.x, y=d[..., 1:2] + trajectory.y, yaw=d[..., 2:3] + trajectory.yaw,
        vel_x=d[..., 3:4] + trajectory.vel_x, vel_y=d[..., 4:5] + trajectory.vel_y,
        valid=action.valid & trajectory.valid)

  def inverse(self, trajectory, metadata, timestep):
    raise NotImplementedError


def env_config(c, **kw):
  kw.setdefault('metrics', _config.MetricsConfig(metrics_to_run=()))
  kw.setdefault('rewards', _config.LinearCombinationRewardConfig(rewards={}))
  return _config.EnvironmentConfig(max_num_objects=c.pydim('N'), **kw)


OT = _config.ObjectType
STEP_VARIANTS = [dict(obj='SDC', inj=True), dict(obj='MODELED', inj=False), dict(obj='VALID', inj=True), dict(obj='VALID', inj=False, init='I')]
D = dict(N=(1, 4), T=(4, 7), B=(1, 3), I=(1, 4), _=('T >= I',))


def step_setup(c):
  pre = c.prefix
  tsh = () if c.v.get('t') == 'scalar' else None
  init, init_p = (c.dim('I'), c.pydim('I')) if c.v.get('init') == 'I' else (2, 2)
  st = sim_state(c, pre, t_shape=tsh, R='N', P=('N', 'T'))
  act = action(c, pre + (c.dim('N'),), 5)
  cfg = env_config(c, controlled_object=OT[c.v['obj']], allow_new_objects_after_warmup=c.v['inj'], init_steps=init_p)
  env = _env.BaseEnvironment(Probe(), cfg)
  out = c.call(lambda s, a: env.step(s, a), st, act)

  def controlled(ix):
    md = st.object_metadata
    if c.v['obj'] == 'SDC':
      return md.is_sdc[ix]
    if c.v['obj'] == 'MODELED':
      return md.is_modeled[ix]
    if c.v['inj']:
      return md.is_valid[ix]
    return st.sim_trajectory.valid[ix + (init - 1,)]
  return st, act, out, controlled


def step_contract(prop, name, variants=STEP_VARIANTS):
  return contract(prop, name, 'BaseEnvironment.step', dims=D, prefixes=[()], variants=variants)


def batch_contract(prop, name):
  return contract(prop, name + '.batched', 'BaseEnvironment.step', dims=D, prefixes=[('B',)],
                  variants=[dict(obj='SDC', inj=True, t='scalar'), dict(obj='MODELED', inj=False, t='full')])


@batch_contract('P01', 'env.step.frame')
@step_contract('P01', 'env.step.frame')
def step_frame(c):
  st, act, out, ctl = step_setup(c)
  T = c.dim('T')
  sh = st.sim_trajectory.x.shape
  c.ensure_fact('type', type(out) is type(st))
  c.ensure('timestep', st.timestep.shape, lambda *ix: out.timestep[ix] == st.timestep[ix] + 1)
  c.ensure_shape('timestep.shape', out.timestep, st.timestep.shape)
  for f in all_fields(st.sim_trajectory):
    a, b = st.sim_trajectory[f], out.sim_trajectory[f]
    c.ensure_shape('sim.shape.' + f, b, sh)
    c.ensure_fact('sim.dtype.' + f, a.dtype == b.dtype)
    c.ensure('sim.others.' + f, sh, lambda *ix: Implies(ix[-1] != tstep(st, ix[:-2]) + 1, same(b[ix], a[ix])))
  for part in ('log_trajectory', 'log_traffic_light', 'object_metadata', 'roadgraph_points', 'sdc_paths'):
    ensure_same_tree(c, part, out[part], st[part])


@batch_contract('P02', 'env.step.motion')
@step_contract('P02', 'env.step.motion')
def step_motion(c):
  st, act, out, ctl = step_setup(c)
  sh = st.sim_trajectory.x.shape[:-1]
  S0, L0, O = st.sim_trajectory, st.log_trajectory, out.sim_trajectory
  t_ = lambda ix: tstep(st, ix[:-1])
  for k, f in enumerate(XYV):
    c.ensure('next.' + f, sh, lambda *ix: near(
        O[f][ix + (t_(ix) + 1,)],
        ite(ctl(ix), act.data[ix + (k,)] + S0[f][ix + (t_(ix),)], L0[f][ix + (t_(ix) + 1,)])))
  for f in ('z', 'length', 'width', 'height'):
    c.ensure('kept.' + f, sh, lambda *ix: near(O[f][ix + (t_(ix) + 1,)], S0[f][ix + (t_(ix),)]))
  c.ensure('timestamp', sh, lambda *ix: O.timestamp_micros[ix + (t_(ix) + 1,)] == L0.timestamp_micros[ix + (t_(ix) + 1,)])


@contract('P02', 'apply_trajectory_update', 'apply_trajectory_update_to_state', dims=dict(N=(1, 4), T=(2, 6), B=(1, 3)), prefixes=[(), ('B',)],
          variants=[dict(inj=i, fb=f) for i in (True, False) for f in (True, False)] + [dict(inj=True, fb=True, t='scalar')])
def apply_update(c):
  """the update for the controlled objects (coasting where it is flagged invalid, if asked for), the reference for the others"""
  pre, T = c.prefix + (c.dim('N'),), c.dim('T')
  up, sim, ref = traj_update(c, pre), trajectory(c, pre + (T,), 'sim_'), trajectory(c, pre + (T,), 'ref_')
  ctl = c.leaf('is_controlled', pre, b_)
  ts = timestep(c, () if c.v.get('t') == 'scalar' else c.prefix, T)
  inj, fb = c.v['inj'], c.v['fb']
  out = c.call(lambda u, s, r, k, t: abstract_dynamics.apply_trajectory_update_to_state(u, s, r, k, t, allow_object_injection=inj, use_fallback=fb), up, sim, ref, ctl, ts)
  t = lambda ix: ts[ix[:ts.ndim]]
  dt = fl(datatypes.TIME_INTERVAL)

  def new(f, ix):
    u = up[f][ix + (0,)]
    if not fb:
      return u
    g = lambda k: sim[k][ix + (t(ix),)]
    coast = {'x': lambda: g('x') + g('vel_x') * dt, 'y': lambda: g('y') + g('vel_y') * dt, 'yaw': lambda: atan2(g('vel_y'), g('vel_x'))}
    return ite(up.valid[ix + (0,)], u, coast[f]() if f in coast else g(f))
  for f in XYV:
    c.ensure('next.' + f, pre, lambda *ix: near(out[f][ix + (t(ix) + 1,)], ite(ctl[ix], new(f, ix), ref[f][ix + (t(ix) + 1,)])))
  for f in ('z', 'length', 'width', 'height'):
    c.ensure('kept.' + f, pre, lambda *ix: same(out[f][ix + (t(ix) + 1,)], sim[f][ix + (t(ix),)]))
  c.ensure('timestamp', pre, lambda *ix: out.timestamp_micros[ix + (t(ix) + 1,)] == ref.timestamp_micros[ix + (t(ix) + 1,)])

  def valid(ix):
    a, b = sim.valid[ix + (t(ix),)], ref.valid[ix + (t(ix) + 1,)]
    return Or(And(ctl[ix], a), b if inj else And(a, b))
  c.ensure('valid', pre, lambda *ix: Iff(out.valid[ix + (t(ix) + 1,)], valid(ix)))
  for f in all_fields(sim):
    c.ensure('others.' + f, pre + (T,), lambda *ix: Implies(ix[-1] != t(ix[:-1]) + 1, same(out[f][ix], sim[f][ix])))


@batch_contract('P03', 'env.step.validity')
@step_contract('P03', 'env.step.validity')
def step_validity(c):
  st, act, out, ctl = step_setup(c)
  sh = st.sim_trajectory.x.shape[:-1]
  S0, L0, O = st.sim_trajectory, st.log_trajectory, out.sim_trajectory

  def p(*ix):
    t = tstep(st, ix[:-1])
    now, nxt = S0.valid[ix + (t,)], L0.valid[ix + (t + 1,)]
    keep = And(ctl(ix), now)
    other = nxt if c.v['inj'] else And(now, nxt)
    return Iff(O.valid[ix + (t + 1,)], Or(keep, other))
  c.ensure('next_valid', sh, p)


@contract('P04', 'env.reset', 'BaseEnvironment.reset', dims=dict(N=(1, 4), T=(1, 7), B=(1, 2), I=(1, 4), _=('T >= I',)), prefixes=[(), ('B',)])
def reset(c):
  init = c.dim('I')
  st = sim_state(c, c.prefix, R='N', P=('N', 'T'), t_lo=-1, t_hi=1)
  cfg = env_config(c, init_steps=c.pydim('I'))
  env = _env.BaseEnvironment(Probe(), cfg)
  out = c.call(lambda s: env.reset(s), st)
  L0, O = st.log_trajectory, out.sim_trajectory
  c.ensure('timestep', out.timestep.shape, lambda *ix: out.timestep[ix] == init - 1)
  for f in all_fields(L0):
    c.ensure_shape('shape.' + f, O[f], L0[f].shape)
    c.ensure_fact('dtype.' + f, O[f].dtype == L0[f].dtype)
    c.ensure('warmup.' + f, L0[f].shape, lambda *ix: Implies(ix[-1] < init, same(O[f][ix], L0[f][ix])))
    if f == 'valid':
      c.ensure('future.valid', L0[f].shape, lambda *ix: Implies(ix[-1] >= init, Not(O.valid[ix])))
    else:
      c.ensure('future.' + f, L0[f].shape, lambda *ix: Implies(ix[-1] >= init, O[f][ix] == -1))
  for part in ('log_trajectory', 'log_traffic_light', 'object_metadata', 'roadgraph_points', 'sdc_paths'):
    ensure_same_tree(c, part, out[part], st[part])


@contract('P04', 'update_state_by_log', 'update_state_by_log', dims=dict(N=(1, 4), T=(5, 7), B=(1, 3), K=(1, 4), _=('T >= K',)), prefixes=[(), ('B',)],
          variants=[dict(t='scalar'), dict(t='full')])
def by_log(c):
  kp, k = c.pydim('K'), c.dim('K')
  st = sim_state(c, c.prefix, R='N', P=('N', 'T'), t_lo=-1, t_hi=k + 1, t_shape=() if c.v['t'] == 'scalar' else None)
  out = c.call(lambda s: datatypes.update_state_by_log(s, kp), st)
  L0, S0, O = st.log_trajectory, st.sim_trajectory, out.sim_trajectory
  c.ensure('timestep', st.timestep.shape, lambda *ix: out.timestep[ix] == st.timestep[ix] + k)
  for f in all_fields(L0):
    def p(*ix):
      t, q = tstep(st, ix[:-2]), ix[-1]
      return same(O[f][ix], ite(And(q > t, q <= t + k), L0[f][ix], S0[f][ix]))
    c.ensure('sim.' + f, L0[f].shape, p)
  for part in ('log_trajectory', 'log_traffic_light', 'object_metadata', 'roadgraph_points', 'sdc_paths'):
    ensure_same_tree(c, part, out[part], st[part])


@contract('P05', 'episode_end', 'SimulatorState.is_done / remaining_timesteps / truncation / termination', dims=dict(N=(1, 4), T=(2, 7), B=(1, 3)),
          prefixes=[(), ('B',)])
def episode_end(c):
  st = sim_state(c, c.prefix, t_lo=-1, t_hi=-2)
  T = c.dim('T')
  env = _env.BaseEnvironment(Probe(), env_config(c))
  out = c.call(lambda s: (s.is_done, s.remaining_timesteps, env.truncation(s), env.termination(s)), st)
  done, rem, trunc, term = out
  P = c.prefix
  for nme, a in zip(('done', 'remaining', 'trunc', 'term'), out):
    c.ensure_shape('shape.' + nme, a, P)
  c.ensure('done', P, lambda *ix: Iff(done[ix], st.timestep[ix] + 1 >= T))
  c.ensure('remaining', P, lambda *ix: rem[ix] == T - 1 - st.timestep[ix])
  c.ensure('truncation', P, lambda *ix: Iff(trunc[ix], st.timestep[ix] + 1 >= T))
  c.ensure('termination', P, lambda *ix: Not(term[ix]))
  c.ensure_fact('bools', done.dtype == bool and trunc.dtype == bool and term.dtype == bool)


@contract('P05', 'episode_end.step', 'BaseEnvironment.step / truncation', dims=dict(N=(1, 3), T=(3, 7)))
def episode_end_step(c):
  """from any state with r >= 1 remaining steps a step leaves r - 1: the horizon is reached after exactly r steps"""
  st = sim_state(c, c.prefix)
  env = _env.BaseEnvironment(Probe(), env_config(c))
  act = action(c, c.prefix + (c.dim('N'),), 5)
  rem0, rem1, tr1 = c.call(lambda s, a: (s.remaining_timesteps, env.step(s, a).remaining_timesteps, env.truncation(env.step(s, a))), st, act)
  c.ensure('decreases', (), lambda: rem1[()] == rem0[()] - 1)
  c.ensure('truncates_at_zero', (), lambda: Iff(tr1[()], rem1[()] == 0))
  env2 = _env.BaseEnvironment(Probe(), env_config(c, init_steps=3))
  init = c.call(lambda s: env2.reset(s).remaining_timesteps, st)
  c.ensure('after_reset', (), lambda: init[()] == c.dim('T') - 3)
