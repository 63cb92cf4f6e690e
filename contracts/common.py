"""Input builders shared by the contracts."""
import numpy as np
from jaxvc.contract import contract, Leaf
from jaxvc import spec as S
from jaxvc.spec import *  # noqa
from jaxvc.spec import A, V
from waymax import datatypes

f32, i32, b_ = np.float32, np.int32, np.bool_

XYV = ('x', 'y', 'yaw', 'vel_x', 'vel_y')
TRAJ_F = ('x', 'y', 'z', 'vel_x', 'vel_y', 'yaw', 'length', 'width', 'height')


def g_pos(r, s):
  m = r.integers(0, 4)
  if m == 0:
    return r.integers(-8, 9, s) * 0.5
  if m == 1:
    return r.uniform(-4, 4, s)
  if m == 2:
    return r.uniform(-100, 100, s)
  return r.integers(-40, 41, s) * 1.0


def g_vel(r, s):
  m = r.integers(0, 4)
  if m == 0:
    return r.integers(-4, 5, s) * 1.0
  if m == 1:
    return r.uniform(-1, 1, s)
  if m == 2:
    return r.uniform(-20, 20, s)
  return np.where(r.random(s) < 0.3, 0.0, r.uniform(-10, 10, s))


def g_yaw(r, s):
  m = r.integers(0, 3)
  if m == 0:
    return r.choice(np.array([0.0, 0.0, 0.5, -0.5, 1.5, -1.5, 3.0, -3.0]), s)
  if m == 1:
    return r.uniform(-3.14, 3.14, s)
  return r.uniform(-9, 9, s)


def g_size(r, s):
  return r.choice(np.array([0.5, 1.0, 2.0, 4.0, 4.5]), s) + (r.uniform(0, 1, s) if r.random() < 0.5 else 0)


def g_valid(p=0.75):
  def g(r, s):
    m = r.integers(0, 6)
    if m == 0:
      return np.ones(s, bool)
    if m == 1:
      return r.random(s) < 0.35
    return r.random(s) < p
  return g


GEN = dict(x=g_pos, y=g_pos, z=g_pos, vel_x=g_vel, vel_y=g_vel, yaw=g_yaw, length=g_size, width=g_size, height=g_size)


def g_time(r, s):
  t = r.integers(0, 100) * 1000 + 100000 * np.arange(s[-1]) if s else r.integers(0, 100)
  return np.broadcast_to(t, s)


def trajectory(c, pre, tag='', where=None, gens=None):
  """Trajectory of shape pre = (..., N, T)"""
  kw = {}
  gens = gens or {}
  for f in TRAJ_F:
    kw[f] = c.leaf(tag + f, pre, f32, gen=gens.get(f, GEN[f]), where=(where or {}).get(f))
  kw['valid'] = c.leaf(tag + 'valid', pre, b_, gen=gens.get('valid', g_valid()))
  kw['timestamp_micros'] = c.leaf(tag + 'ts', pre, i32, gen=g_time)
  return datatypes.Trajectory(**kw)


def traj_update(c, pre, tag='u_'):
  kw = {f: c.leaf(tag + f, pre + (1,), f32, gen=GEN[f]) for f in XYV}
  return datatypes.TrajectoryUpdate(valid=c.leaf(tag + 'valid', pre + (1,), b_), **kw)


def g_act(r, s):
  m = r.integers(0, 3)
  if m == 0:
    return r.uniform(-0.3, 0.3, s)
  if m == 1:
    return r.uniform(-2, 2, s)
  return r.uniform(-10, 10, s)


def action(c, pre, nd, tag='a_', gen=g_act):
  return datatypes.Action(data=c.leaf(tag + 'data', pre + (nd,), f32, gen=gen), valid=c.leaf(tag + 'valid', pre + (1,), b_, gen=g_valid()))


def metadata(c, pre, tag='m_', one_sdc=False):
  kw = {}
  kw['ids'] = c.leaf(tag + 'ids', pre, i32)
  kw['object_types'] = c.leaf(tag + 'object_types', pre, i32, where=lambda v, *ix: And(0 <= v, v <= 4), gen=lambda r, s: r.integers(0, 5, s))
  for f in ('is_sdc', 'is_modeled', 'is_valid', 'objects_of_interest', 'is_controlled'):
    kw[f] = c.leaf(tag + f, pre, b_)
  return datatypes.ObjectMetadata(**kw)


def tlights(c, pre, tag='tl_'):
  kw = {f: c.leaf(tag + f, pre, f32, gen=g_pos) for f in ('x', 'y', 'z')}
  kw['state'] = c.leaf(tag + 'state', pre, i32, where=lambda v, *ix: And(0 <= v, v <= 8), gen=lambda r, s: r.integers(0, 9, s))
  kw['lane_ids'] = c.leaf(tag + 'lane_ids', pre, i32, gen=lambda r, s: r.integers(1, 9, s))
  kw['valid'] = c.leaf(tag + 'valid', pre, b_)
  return datatypes.TrafficLights(**kw)


def roadgraph(c, pre, tag='rg_', types=None):
  kw = {f: c.leaf(tag + f, pre, f32, gen=g_pos) for f in ('x', 'y', 'z')}
  for f in ('dir_x', 'dir_y', 'dir_z'):
    kw[f] = c.leaf(tag + f, pre, f32, gen=lambda r, s: r.uniform(-1, 1, s))
  kw['types'] = c.leaf(tag + 'types', pre, i32, where=lambda v, *ix: And(0 <= v, v <= 20), gen=types or (lambda r, s: r.choice(np.array([1, 2, 3, 6, 15, 16, 17, 18]), s)))
  kw['ids'] = c.leaf(tag + 'ids', pre, i32, gen=lambda r, s: r.integers(0, 4, s))
  kw['valid'] = c.leaf(tag + 'valid', pre, b_, gen=g_valid())
  return datatypes.RoadgraphPoints(**kw)


def timestep(c, pre, T, name='timestep', lo=0, hi_off=2):
  """timestep with lo <= t <= T - hi_off"""
  return c.leaf(name, pre, i32, where=lambda v, *ix: And(lo <= v, v <= T - hi_off),
                gen=lambda r, s: r.integers(lo, max(lo, int(S.raw(T)) - int(S.raw(hi_off))) + 1, s))


def all_fields(obj, skip=()):
  return [k for k in obj.__dataclass_fields__ if k not in skip]


def ix_at(a, ix, t):
  return a[ix + (t,)]


def wrap(y):
  """the angle equal to y modulo a full turn in [-pi, pi)"""
  return mod(y + pi(), pi(2)) - pi()


def in_turn(y):
  e = 1e-5 if S.CONC[0] else 0
  return And(-pi() - e <= y, y < pi() + e)


def paths(c, pre, tag='p_'):
  """pre = (..., P, K)"""
  kw = {f: c.leaf(tag + f, pre, f32, gen=g_pos) for f in ('x', 'y', 'z', 'arc_length')}
  kw['ids'] = c.leaf(tag + 'ids', pre, i32, gen=lambda r, s: r.integers(1, 9, s))
  kw['valid'] = c.leaf(tag + 'valid', pre, b_, gen=g_valid())
  kw['on_route'] = c.leaf(tag + 'on_route', pre[:-1] + (1,), b_)
  return datatypes.Paths(**kw)


def sim_state(c, pre=(), N='N', T='T', t_shape=None, t_hi=2, t_lo=0, L=2, R=None, P=None, one_sdc=False):
  n, t = c.dim(N), c.dim(T)
  st = dict(
      sim_trajectory=trajectory(c, pre + (n, t), 'sim_'),
      log_trajectory=trajectory(c, pre + (n, t), 'log_'),
      log_traffic_light=tlights(c, pre + (L, t)),
      object_metadata=metadata(c, pre + (n,)),
      timestep=timestep(c, pre if t_shape is None else t_shape, t, lo=t_lo, hi_off=t_hi))
  st['roadgraph_points'] = roadgraph(c, pre + (c.dim(R),)) if R else None
  st['sdc_paths'] = paths(c, pre + (c.dim(P[0]), c.dim(P[1]))) if P else None
  return datatypes.SimulatorState(**st)


def tstep(st, ix):
  """the timestep that applies at prefix index ix"""
  return st.timestep[ix[:st.timestep.ndim]]


def leaves_of(tree):
  import jax
  return [(jax.tree_util.keystr(p), l) for p, l in jax.tree_util.tree_flatten_with_path(tree, is_leaf=lambda x: isinstance(x, A))[0]]


def ensure_same_tree(c, name, a, b):
  """every leaf of a equals the leaf of b at every index"""
  la, lb = leaves_of(a), leaves_of(b)
  c.ensure_fact(name + '.structure', [p for p, _ in la] == [p for p, _ in lb])
  for (p, x), (_, y) in zip(la, lb):
    c.ensure_shape(name + p + '.shape', x, y.shape)
    c.ensure_fact(name + p + '.dtype', x.dtype == y.dtype, f'{x.dtype} != {y.dtype}')
    c.ensure(name + p, y.shape, lambda *ix, x=x, y=y: same(x[ix], y[ix]))
