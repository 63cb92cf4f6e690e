"""Route-following agents and the intelligent driver model (P27)."""
from .common import *
import jax
import jax.numpy as jnp
from waymax import agents, config as _config
from waymax.agents import agent_builder, sim_agent, waypoint_following_agent as W
from .c_geometry import overlap_ref

P2 = [(), ('B',)]
DT = dict(N=(1, 3), T=(2, 6), B=(1, 2))
BOX = ('x', 'y', 'length', 'width', 'yaw')


def t_shape(c):
  return () if c.v.get('t') == 'scalar' else None


def norm(*xs):
  s = xs[0] * xs[0]
  for x in xs[1:]:
    s = s + x * x
  return sqrt(s)


def make_follower(speed, ok, end):
  class Follower(W.WaypointFollowingPolicy):
    """any choice of speeds"""

    def update_speed(self, state, dt=0.1):
      return speed, ok
  return Follower(invalidate_on_end=end)


def path_spec(c, st, speed, ok, end):
  """what the property says about the next state; functions of the object index ix = (..., i)"""
  T_ = c.dim('T')
  S0, L0 = st.sim_trajectory, st.log_trajectory
  now = lambda f: lambda ix: S0[f][ix + (tstep(st, ix[:-1]),)]
  v0 = lambda ix: ite(now('valid')(ix), norm(now('vel_x')(ix), now('vel_y')(ix)), -1.0)
  v1 = lambda ix: ite(ok(ix), speed(ix), v0(ix))
  d = lambda ix: (v1(ix) + v0(ix)) / 2 * fl(0.1)
  px = lambda ix: now('x')(ix) + d(ix) * cos(now('yaw')(ix))
  py = lambda ix: now('y')(ix) + d(ix) * sin(now('yaw')(ix))
  gap = lambda ix, t: ite(L0.valid[ix + (t,)], norm(L0.x[ix + (t,)] - px(ix), L0.y[ix + (t,)] - py(ix)), INF())
  k = lambda ix: argmin(T_, lambda t: gap(ix, t))
  lastk = lambda ix: argmax(T_, lambda t: ite(L0.valid[ix + (t,)], t, 0))

  def spec(ix):
    kk, ll = k(ix), lastk(ix)
    wx, wy, wyaw = (L0[f][ix + (kk,)] for f in ('x', 'y', 'yaw'))
    reached = Or(norm(L0.x[ix + (ll,)] - wx, L0.y[ix + (ll,)] - wy) < fl(0.05), gap(ix, kk) > 5)
    cx, cy = cos(wyaw), sin(wyaw)
    if end:
      cx, cy = ite(reached, 0.0, cx), ite(reached, 0.0, cy)
    s = cx * (px(ix) - wx) + cy * (py(ix) - wy)
    keep = (lambda f: V_(fl(0.0))) if end else (lambda f: now(f)(ix))
    yaw = now('yaw')(ix)
    valid = And(ok(ix), now('valid')(ix))
    if end:
      valid = And(valid, Not(And(reached, v1(ix) > 1)))
    return dict(x=cx * s + wx, y=cy * s + wy, yaw=wyaw, vel_x=ite(reached, keep('vel_x'), v1(ix) * cos(yaw)),
                vel_y=ite(reached, keep('vel_y'), v1(ix) * sin(yaw)), valid=valid)
  spec.last = lastk
  return spec


@contract('P27', 'update_trajectory', 'WaypointFollowingPolicy.update_trajectory', dims=DT, prefixes=P2, variants=[dict(end=False), dict(end=True), dict(end=True, t='scalar')], timeout=40)
def follow(c):
  pre = c.prefix + (c.dim('N'),)
  st = sim_state(c, c.prefix, t_shape=t_shape(c), t_hi=1)
  sp = c.leaf('speed', pre, f32, gen=lambda r, s: r.uniform(0, 12, s), where=lambda v, *ix: v >= 0)
  ok = c.leaf('speed_ok', pre, b_, gen=g_valid(0.85))
  o = c.call(lambda s, a, b: make_follower(a, b, c.v['end']).update_trajectory(s), st, sp, ok)
  spec = path_spec(c, st, lambda ix: sp[ix], lambda ix: ok[ix], c.v['end'])
  for f in XYV + ('valid',):
    c.ensure_shape('shape.' + f, o[f], pre + (1,))
  c.ensure('valid', pre, lambda *ix: Iff(o.valid[ix + (0,)], spec(ix)['valid']))
  for f in XYV:
    c.ensure(f, pre, lambda *ix: near(o[f][ix + (0,)], ite(spec(ix)['valid'], spec(ix)[f], -1.0)))
  lv = st.log_trajectory.valid
  T_ = c.dim('T')
  c.ensure('last_waypoint', pre + (T_,), lambda *ix: Implies(lv[ix], And(lv[ix[:-1] + (spec.last(ix[:-1]),)], ix[-1] <= spec.last(ix[:-1]))))


PAR = dict(default=dict(), tuned=dict(desired_vel=20.0, min_spacing=1.5, safe_time_headway=1.0, max_accel=1.5, max_decel=6.0))
FULL = dict(desired_vel=30.0, min_spacing=2.0, safe_time_headway=2.0, max_accel=2.0, max_decel=4.0)


def idm_accel(p, v, blocked, lead_v, gap):
  """the intelligent driver model: acceleration at speed v behind a lead of speed lead_v at distance gap"""
  q = p['max_accel'] * p['max_decel']
  r = sqrt(fl(q))
  s = p['min_spacing'] + maxv(0.0, v * p['safe_time_headway'] + v * (v - lead_v) / (2 * r))
  z = ite(blocked, s / ite(gap == 0, fl(0.1), gap), 0.0)
  u = v / p['desired_vel']
  return p['max_accel'] * (1 - u * u * u * u - z * z)


def idm_spec(c, st, p, points, distance):
  N = c.dim('N')
  S0 = st.sim_trajectory
  now = lambda f, ix: S0[f][ix + (tstep(st, ix[:-1]),)]
  speed = lambda ix: ite(now('valid', ix), norm(now('vel_x', ix), now('vel_y', ix)), -1.0)

  def ahead(ix, k):
    s = fl(distance * k / points) if points else fl(0.0)
    return now('x', ix) + cos(now('yaw', ix)) * s, now('y', ix) + sin(now('yaw', ix)) * s

  def hit(ix, k, j):
    """object j is in the way at the k-th point ahead"""
    pre, i = ix[:-1], ix[-1]
    xy = ahead(ix, k)
    mine = lambda q: xy[q] if q < 2 else now(BOX[q], ix)
    other = lambda q: now(BOX[q], pre + (j,))
    return And(now('valid', ix), now('valid', pre + (j,)), i != j, overlap_ref(mine, other))

  def accel(ix):
    pre = ix[:-1]
    blocked, lead_v, gap = V_(False), V_(fl(0.0)), V_(fl(0.0))
    for k in reversed(range(points + 1)):
      h, vk = anyone(ix, k), slowest(ix, k)
      x, y = ahead(ix, k)
      gk = norm(now('x', ix) - x, now('y', ix) - y)
      blocked, lead_v, gap = Or(h, blocked), ite(h, vk, lead_v), ite(h, gk, gap)
    return idm_accel(p, speed(ix), blocked, lead_v, gap)
  memo = {}

  def once(name, ix, k, f):
    if c.conc:
      return f()
    key = (name, k) + tuple(str(i) for i in ix)
    if key not in memo:
      memo[key] = f()
    return memo[key]
  anyone = lambda ix, k: once('any', ix, k, lambda: exists(N, lambda j: hit(ix, k, j)))
  slowest = lambda ix, k: once('min', ix, k, lambda: min_(N, lambda j: ite(hit(ix, k, j), speed(ix[:-1] + (j,)), INF())))
  return speed, accel, anyone, slowest


@contract('P27', 'idm.update_speed', 'IDMRoutePolicy.update_speed', dims=dict(N=(1, 4), T=(2, 4), B=(1, 2)), prefixes=P2,
          variants=[dict(n=1, par='default'), dict(n=1, par='tuned'), dict(n=1, par='tuned', t='scalar')], timeout=60, modular=('has_overlap',))
def idm(c):
  idm_body(c)


def idm_body(c):
  pre = c.prefix + (c.dim('N'),)
  st = sim_state(c, c.prefix, t_shape=t_shape(c), t_hi=1)
  n = c.v['n']
  par = {**FULL, **PAR[c.v['par']]}
  dist = 10.0 if c.v['par'] == 'default' else 6.0
  pol = W.IDMRoutePolicy(additional_lookahead_points=n, additional_lookahead_distance=dist, **PAR[c.v['par']])
  o, ok = c.call(lambda s: pol.update_speed(s), st)
  speed, accel, anyone, slowest = idm_spec(c, st, par, n, dist)
  c.ensure_shape('shape', o, pre)
  c.ensure('valid', pre, lambda *ix: ok[ix])
  valid = lambda ix: st.sim_trajectory.valid[ix + (tstep(st, ix[:-1]),)]
  lem = []
  if n > 1:
    for k in range(n + 1):
      lem.append(c.lemma(f'lead.{k}', pre, lambda *ix, k=k: And(Iff(anyone(ix, k), slowest(ix, k) < INF()), slowest(ix, k) >= 0)))

  def facts(ix):
    for l in lem:
      l(*ix)
    return V_(True)
  c.ensure('speed', pre, lambda *ix: Implies(And(facts(ix), valid(ix)), near(o[ix], maxv(0.0, speed(ix) + fl(0.1) * accel(ix)), tol=1e-3)),
           cases=lambda *ix: [Not(valid(ix))] + [anyone(ix, k) for k in range(n + 1)])


@contract('P27', 'idm.update_speed.far', 'IDMRoutePolicy.update_speed', dims=dict(N=(1, 5), T=(2, 4), B=(1, 2)), prefixes=P2,
          variants=[dict(n=2, par='default'), dict(n=10, par='default'), dict(n=10, par='tuned')], samples=40,
          modular=('has_overlap',), deep=60, internal=True)
def idm_far(c):
  idm_body(c)


@contract('P27', 'idm.lead_distance', 'IDMRoutePolicy._compute_lead_distance', dims=dict(L=(1, 5), B=(1, 3)), prefixes=P2, internal=True)
def lead_distance(c):
  """for any number of points: the smallest distance to a point with a collision"""
  pre, L = c.prefix, c.dim('L')
  fut = c.leaf('future', pre + (L, 3), f32)
  cur = c.leaf('current', pre + (1, 3), f32)
  hit = c.leaf('hit', pre + (L,), b_, gen=g_valid(0.4))
  o = c.call(lambda f, h, p: W.IDMRoutePolicy()._compute_lead_distance(agent_future=f, collision_indicator=h, current_position=p), fut, hit, cur)
  d = lambda ix, t: norm(*[fut[ix + (t, q)] - cur[ix + (0, q)] for q in range(3)])
  c.ensure_shape('shape', o, pre)
  c.ensure('nearest', pre, lambda *ix: Implies(exists(L, lambda t: hit[ix + (t,)]), near(o[ix], min_(L, lambda t: ite(hit[ix + (t,)], d(ix, t), INF())))))


@contract('P27', 'sim_agent.select_action', 'SimAgentActor.select_action', dims=DT, prefixes=P2, variants=[dict(ctl=False), dict(ctl=True), dict(ctl=True, t='scalar')])
def select(c):
  """the update is the action; by default every object but the ego is controlled"""
  pre = c.prefix + (c.dim('N'),)
  st = sim_state(c, c.prefix, t_shape=t_shape(c), t_hi=1)
  chosen = c.leaf('chosen', pre, b_)
  fields = XYV + ('valid',)
  up = {f: c.leaf('update_' + f, pre + (1,), b_ if f == 'valid' else f32) for f in fields}

  class Any(sim_agent.SimAgentActor):
    def __init__(self, u, *a):
      super().__init__(*a)
      self.u = u

    def update_trajectory(self, state):
      return datatypes.TrajectoryUpdate(**self.u)

  def f(s, u, m):
    a = Any(u, lambda state: m) if c.v['ctl'] else Any(u)
    r = a.select_action({}, s, None, None)
    return r.action.data, r.action.valid, r.is_controlled
  data, valid, ctl = c.call(f, st, up, chosen)
  c.ensure_shape('shape', data, pre + (5,))
  c.ensure_shape('shape.valid', valid, pre + (1,))
  c.ensure_shape('shape.controlled', ctl, pre)
  for q, f_ in enumerate(XYV):
    c.ensure('action.' + f_, pre, lambda *ix: same(data[ix + (q,)], up[f_][ix + (0,)]))
  c.ensure('action.valid', pre, lambda *ix: Iff(valid[ix + (0,)], up['valid'][ix + (0,)]))
  c.ensure('controlled', pre, lambda *ix: Iff(ctl[ix], chosen[ix] if c.v['ctl'] else Not(st.object_metadata.is_sdc[ix])))


@contract('P27', 'frozen', 'FrozenSimPolicy.update_trajectory', dims=DT, prefixes=P2, variants=[dict(), dict(t='scalar')])
def frozen(c):
  pre = c.prefix + (c.dim('N'),)
  st = sim_state(c, c.prefix, t_shape=t_shape(c), t_hi=1)
  o = c.call(lambda s: sim_agent.FrozenSimPolicy().update_trajectory(s), st)
  for f in XYV + ('valid',):
    c.ensure_shape('shape.' + f, o[f], pre + (1,))
    c.ensure(f, pre, lambda *ix: same(o[f][ix + (0,)], st.sim_trajectory[f][ix + (tstep(st, ix[:-1]),)]))


@contract('P27', 'agent_builder', 'create_sim_agents_from_config', dims=DT, prefixes=P2, variants=[dict(kind='sdc'), dict(kind='others')])
def builder(c):
  """the configured objects get the intelligent driver model with its default parameters; anything else is rejected"""
  pre = c.prefix + (c.dim('N'),)
  st = sim_state(c, c.prefix, t_shape=t_shape(c), t_hi=1)
  OT = _config.ObjectType
  obj = OT.SDC if c.v['kind'] == 'sdc' else OT.NON_SDC
  make = lambda o, t=_config.SimAgentType.IDM: agent_builder.create_sim_agents_from_config(_config.SimAgentConfig(agent_type=t, controlled_objects=o))
  ag = make(obj)
  ref = W.IDMRoutePolicy()
  for k in ('desired_vel', 'min_spacing_s0', 'safe_time_headway', 'max_accel', 'max_decel', 'delta', 'max_lookahead', 'lookahead_from_current_position',
            'additional_lookahead_distance', 'additional_headway_points', 'invalidate_on_end'):
    if hasattr(ref, k):
      c.ensure_fact('parameter.' + k, getattr(ag, k) == getattr(ref, k))
  c.ensure_fact('model', isinstance(ag, W.IDMRoutePolicy))
  for o in OT:
    if o not in (OT.SDC, OT.NON_SDC):
      try:
        make(o)
        rej = False
      except NotImplementedError:
        rej = True
      c.ensure_fact(f'rejects {o.name}', rej)
  try:
    make(obj, 'unknown agent')
    rej = False
  except NotImplementedError:
    rej = True
  c.ensure_fact('rejects unknown agents', rej)
  m = c.call(lambda s: ag.is_controlled_func(s), st)
  c.ensure('controlled', pre, lambda *ix: Iff(m[ix], st.object_metadata.is_sdc[ix] if c.v['kind'] == 'sdc' else Not(st.object_metadata.is_sdc[ix])))


@contract('P27', 'idm.monotone', 'IDMRoutePolicy (consequences of its formula)')
def monotone(c):
  """the acceleration of the specification never grows when the lead is nearer or slower, and is positive exactly below
  the desired speed on a free road"""
  if c.conc:
    return
  c.math('nearer or slower', 4, lambda s1, s2, g1, g2: Implies(And(s1 >= s2, s2 >= 0, 0 < g1, g1 <= g2), (s1 / g1) * (s1 / g1) >= (s2 / g2) * (s2 / g2)))
  c.math('slower lead asks for more space', 4, lambda v, l1, l2, r: Implies(And(v >= 0, l1 <= l2, r > 0), maxv(0.0, v * 2 + v * (v - l1) / r) >= maxv(0.0, v * 2 + v * (v - l2) / r)))
  c.math('free road', 2, lambda v, d: Implies(And(v >= 0, d > 0), Iff(1 - (v / d) * (v / d) * (v / d) * (v / d) > 0, v < d)))
