"""The rollout, for an arbitrary environment and an arbitrary actor: every function of the two is an unknown function
of everything it is given (all real environments and actors are instances, up to what their states hold)."""
from .common import *
import chex
import jax
import jax.numpy as jnp
from jaxvc import sem
from waymax import metrics as _metrics
from waymax import agents as _agents
from waymax.agents import actor_core
from waymax.env import abstract_environment
from waymax.env.rollout import rollout as _rollout, rollout_log_by_expert_sdc


@chex.dataclass
class St:
  x: jax.Array
  y: jax.Array

  @property
  def shape(self):
    return self.x.shape


@chex.dataclass
class Obs:
  o: jax.Array

  @property
  def shape(self):
    return self.o.shape


@chex.dataclass
class Act:
  u: jax.Array
  w: jax.Array
  key: jax.Array
  mem: jax.Array

  @property
  def shape(self):
    return self.u.shape


op = sem.elementwise_op
ST = ('x', 'y')


def sargs(s):
  return s.x, s.y


def aargs(a):
  return a.u, a.w, a.key[..., 0], a.key[..., 1], a.mem


class Env(abstract_environment.AbstractEnvironment):
  """functions of a state of shape (...)"""

  def reset(self, state):
    return St(x=op('reset_x', i32, *sargs(state)), y=op('reset_y', f32, *sargs(state)))

  def step(self, state, action):
    z = (action.key[..., 0] + 0 * state.x.astype(jnp.uint32), action.key[..., 1] + 0 * state.x.astype(jnp.uint32))
    a = (action.u, action.w, *z, action.mem)
    return St(x=op('step_x', i32, *sargs(state), *a), y=op('step_y', f32, *sargs(state), *a))

  def observe(self, state):
    return Obs(o=op('obs', f32, *sargs(state)))

  def metrics(self, state):
    return {'m': _metrics.MetricResult(value=op('metric', f32, *sargs(state)), valid=op('metric_ok', b_, *sargs(state)))}

  def reward(self, state, action):
    return op('reward', f32, *sargs(state), action.u, action.w, action.mem)

  def action_spec(self):
    raise NotImplementedError

  def reward_spec(self):
    raise NotImplementedError

  def discount_spec(self):
    raise NotImplementedError

  def observation_spec(self):
    raise NotImplementedError

  def termination(self, state):
    raise NotImplementedError

  def truncation(self, state):
    raise NotImplementedError


class Actor(actor_core.WaymaxActorCore):
  """the action shows the key and the memory it was chosen with"""

  def init(self, rng, state):
    return op('mem0', i32, rng[0], rng[1], *sargs(state))

  def select_action(self, params, state, actor_state, rng):
    a = (params, *sargs(state), actor_state, rng[0], rng[1])
    act = Act(u=op('act_u', f32, *a), w=op('act_w', i32, *a), key=rng, mem=actor_state)
    return actor_core.WaymaxActorOutput(actor_state=op('mem', i32, *a), action=act, is_controlled=op('ctl', b_, *a))

  @property
  def name(self):
    return 'unknown'


def setup(c, n):
  pre = c.prefix
  sc = St(x=c.leaf('x', pre, i32), y=c.leaf('y', pre, f32))
  rng = c.key('rng')
  par = c.leaf('params', (), f32)
  out = c.call(lambda s, r, p: _rollout(s, Actor(), Env(), r, rollout_num_steps=n, actor_params=p), sc, rng, par)
  return pre, sc, rng, par, out


def spec_step(s, a):
  z = (*s, *a)
  return uf('step_x', i32, *z), uf('step_y', f32, *z)


def state_at(o, t, ix):
  return o.state.x[(t,) + ix], o.state.y[(t,) + ix]


def act_at(o, t, ix):
  return o.action.u[(t,) + ix], o.action.w[(t,) + ix], o.action.key[t, 0], o.action.key[t, 1], o.action.mem[(t,) + ix]


def obligations(c, n, pre, sc, rng, par, out, keys, uses=()):
  """keys(t): the key the specification gives to step t; n: number of steps"""
  same2 = lambda a, b: And(same(a[0], b[0]), near(a[1], b[1]))
  r0 = (rng[0], rng[1])
  full = (n + 1,) + tuple(pre)
  S0 = lambda ix: (uf('reset_x', i32, sc.x[ix], sc.y[ix]), uf('reset_y', f32, sc.x[ix], sc.y[ix]))
  for nm, a, sh in (('state.x', out.state.x, full), ('state.y', out.state.y, full), ('observation', out.observation.o, full), ('reward', out.reward, full),
                    ('action', out.action.u, full), ('metrics', out.metrics['m'].value, full), ('metrics.valid', out.metrics['m'].valid, full)):
    c.ensure_shape(nm + '.shape', a, sh)
  c.ensure_fact('metrics.names', set(out.metrics) == {'m'})
  c.ensure('initial', pre, lambda *ix: same2(state_at(out, 0, ix), S0(ix)))
  c.ensure('transition', (n,) + tuple(pre), lambda t, *ix: same2(state_at(out, t + 1, ix), spec_step(state_at(out, t, ix), act_at(out, t, ix))))
  c.ensure('observation', full, lambda t, *ix: near(out.observation.o[(t,) + ix], uf('obs', f32, *state_at(out, t, ix))))
  c.ensure('metrics.value', full, lambda t, *ix: near(out.metrics['m'].value[(t,) + ix], uf('metric', f32, *state_at(out, t, ix))))
  c.ensure('metrics.validity', full, lambda t, *ix: Iff(out.metrics['m'].valid[(t,) + ix], uf('metric_ok', b_, *state_at(out, t, ix))))

  def rew(t, *ix):
    a = act_at(out, t, ix)
    return near(out.reward[(t,) + ix], uf('reward', f32, *state_at(out, t, ix), a[0], a[1], a[4]))
  c.ensure('reward', full, rew)

  def acts(t, *ix):
    a = act_at(out, t, ix)
    z = (par[()], *state_at(out, t, ix), a[4], a[2], a[3])
    return And(near(a[0], uf('act_u', f32, *z)), a[1] == uf('act_w', i32, *z))
  c.ensure('action', (n,) + tuple(pre), acts)
  k0 = key_split(r0, 2, 0)
  c.ensure('memory.initial', pre, lambda *ix: out.action.mem[(0,) + ix] == uf('mem0', i32, *k0, *S0(ix)))

  def mem(t, *ix):
    a = act_at(out, t, ix)
    return out.action.mem[(t + 1,) + ix] == uf('mem', i32, par[()], *state_at(out, t, ix), a[4], a[2], a[3])
  c.ensure('memory.carried', (n - 1,) + tuple(pre), mem)

  def pad(*ix):
    a = act_at(out, n, ix)
    return And(near(a[0], 0), *[z == 0 for z in a[1:]])
  c.ensure('padding', pre, pad)

  def ks(t):
    for u in uses:
      u(t)
    return And(*[out.action.key[t, i] == keys(t)[i] for i in (0, 1)])
  c.ensure('keys', (n,), ks)


def key_chain(c, rng):
  nxt = c.seq('R', key_split((rng[0], rng[1]), 2, 1), lambda r: key_split(r, 2, 1))
  return nxt, lambda t: key_split(nxt(t), 2, 0)


@contract('P06', 'rollout.any_length', 'rollout', dims=dict(n=(1, 4), B=(1, 3)), prefixes=[(), ('B',)])
def any_length(c):
  pre, sc, rng, par, out = setup(c, c.pydim('n'))
  n = c.dim('n')
  nxt, keys = key_chain(c, rng)
  uses = []
  for lp in c.loops():
    for k, a in enumerate(lp.carries):
      if str(a.dtype) == 'uint32' and len(a.shape) == 2 and a.shape[1] == 2:
        uses.append(c.induct(f'key_chain.{k}', n, lambda t, a=a: And(*[V(a.at(S.raw(t), i)) == nxt(t)[i] for i in (0, 1)]), optional=True))
  obligations(c, n, pre, sc, rng, par, out, keys, uses)


@contract('P06', 'rollout.unrolled', 'rollout', dims=dict(B=(1, 3)), prefixes=[(), ('B',)], variants=[dict(n=1), dict(n=2), dict(n=3)])
def unrolled(c):
  pre, sc, rng, par, out = setup(c, c.v['n'])
  nxt, keys = key_chain(c, rng)
  obligations(c, c.v['n'], pre, sc, rng, par, out, keys)
