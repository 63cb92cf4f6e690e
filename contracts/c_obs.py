"""Observations and roadgraph filtering (P16, P17)."""
from .common import *
from jaxvc import sem
import jax
import jax.numpy as jnp
from waymax import config as _config
from waymax.datatypes import observation as OB
from waymax.datatypes import roadgraph as RG
from .c_geometry import local

RGF = ('x', 'y', 'z', 'dir_x', 'dir_y', 'dir_z', 'types', 'ids', 'valid')


def big_ids(r, s):
  return r.integers(0, 4, s) + r.choice(np.array([0, 2 ** 24, 2 ** 26]), s)


def dist(p, q):
  dx, dy = p[0] - q[0], p[1] - q[1]
  return sqrt(dx * dx + dy * dy)


def nearest(c, rg, k, at, refx, refy):
  """rank -> position of the map point, by planar distance, invalid points last; `at` is the prefix index"""
  M = rg.x.shape[-1]
  memo = c.__dict__.setdefault('ranks', {})
  mk = tuple(sem._k(S.raw(i)) for i in at) if not c.conc else None
  if mk is not None and mk in memo:
    return memo[mk]

  def key(q):
    return ite(rg.valid[at + (q,)], dist((refx, refy), (rg.x[at + (q,)], rg.y[at + (q,)])), INF())
  r = ranked(M, k, key)
  if mk is not None:
    memo[mk] = r
  return r


@contract('P17', 'filter_topk_roadgraph_points', 'filter_topk_roadgraph_points', dims=dict(M=(2, 6), K=(1, 4), B=(1, 3), _=('K + 1 <= M',)), prefixes=[(), ('B',)], timeout=30)
def topk(c):
  M, K = c.dim('M'), c.dim('K')
  rg = roadgraph(c, c.prefix + (M,))
  rg = rg.replace(ids=c.leaf('bigids', c.prefix + (M,), i32, gen=big_ids))
  ref = c.leaf('ref', c.prefix + (2,), f32, gen=g_pos)
  k = c.pydim('K')
  o = c.call(lambda g, p: RG.filter_topk_roadgraph_points(g, p, k), rg, ref)
  sh = c.prefix + (K,)

  def src(ix):
    return nearest(c, rg, K, ix[:-1], ref[ix[:-1] + (0,)], ref[ix[:-1] + (1,)])(ix[-1])
  for f in RGF:
    c.ensure_fact('dtype.' + f, o[f].dtype == rg[f].dtype)
    c.ensure_shape('shape.' + f, o[f], sh)
    c.ensure('intact.' + f, sh, lambda *ix: same(o[f][ix], rg[f][ix[:-1] + (src(ix),)]))
  # valid points are never displaced by invalid ones
  def ok(ix):
    return Implies(Not(o.valid[ix]), forall(M, lambda q: Implies(rg.valid[ix[:-1] + (q,)], exists(K, lambda j: And(o.valid[ix[:-1] + (j,)], o.x[ix[:-1] + (j,)] == rg.x[ix[:-1] + (q,)], o.y[ix[:-1] + (j,)] == rg.y[ix[:-1] + (q,)])))))
  if c.conc:
    c.ensure('valid_first', sh, lambda *ix: ok(ix))


@contract('P17', 'filter_topk_roadgraph_points.all', 'filter_topk_roadgraph_points', dims=dict(M=(1, 6), B=(1, 3)), prefixes=[(), ('B',)])
def topkall(c):
  M = c.dim('M')
  rg = roadgraph(c, c.prefix + (M,))
  ref = c.leaf('ref', c.prefix + (2,), f32, gen=g_pos)
  k = c.pydim('M')
  o = c.call(lambda g, p: RG.filter_topk_roadgraph_points(g, p, k), rg, ref)
  ensure_same_tree(c, 'unchanged', o, rg)

  def toomany(g, p):
    try:
      RG.filter_topk_roadgraph_points(g, p, k + 1)
    except NotImplementedError:
      return jnp.array(True)
    return jnp.array(False)
  r = c.call(toomany, rg, ref)
  c.ensure('rejects_more_than_all', (), lambda: r[()])


# ------------------------------------------------------------------ frames
def pose_leaf(c, pre):
  """an arbitrary rigid pose, as from_center_and_yaw builds it"""
  return c.leaf('q_xy', pre + (2,), f32, gen=g_pos), c.leaf('q_yaw', pre, f32, gen=g_yaw), c.leaf('q_valid', pre, b_, gen=g_valid())


DOBS = dict(O=(1, 2), N=(1, 3), T=(1, 3), B=(1, 2))


def rot(yaw, ix, vx, vy):
  return cos(yaw[ix]) * vx + sin(yaw[ix]) * vy, cos(yaw[ix]) * vy - sin(yaw[ix]) * vx


def moved_traj(c, name, o, tr, sh, src, fr):
  """o is tr (read at src(ix)) in the frame fr(ix) -> (xy, yaw, index, valid) or None"""
  for f in TRAJ_F + ('timestamp_micros',):
    c.ensure_fact(f'{name}.dtype.{f}', o[f].dtype == tr[f].dtype)
    c.ensure_shape(f'{name}.shape.{f}', o[f], sh)
  for f in ('z', 'length', 'width', 'height', 'timestamp_micros'):
    c.ensure(f'{name}.{f}', sh, lambda *ix: same(o[f][ix], tr[f][src(ix)]))
  if fr is None:
    for f in XYV + ('valid',):
      c.ensure(f'{name}.{f}', sh, lambda *ix: same(o[f][ix], tr[f][src(ix)]))
    return
  for j, f in enumerate(('x', 'y')):
    c.ensure(f'{name}.{f}', sh, lambda *ix: (lambda q: near(o[f][ix], local(q[0], q[1], q[2], tr.x[src(ix)], tr.y[src(ix)])[j], tol=1e-2))(fr(ix)))
  for j, f in enumerate(('vel_x', 'vel_y')):
    c.ensure(f'{name}.{f}', sh, lambda *ix: (lambda q: near(o[f][ix], rot(q[1], q[2], tr.vel_x[src(ix)], tr.vel_y[src(ix)])[j]))(fr(ix)))
  c.ensure(f'{name}.yaw', sh, lambda *ix: (lambda q: near(o.yaw[ix], tr.yaw[src(ix)] - q[1][q[2]]))(fr(ix)))
  c.ensure(f'{name}.valid', sh, lambda *ix: (lambda q: Iff(o.valid[ix], And(tr.valid[src(ix)], q[3][q[2]])))(fr(ix)))


def moved_rg(c, name, o, rg, sh, src, fr):
  for f in RGF:
    c.ensure_fact(f'{name}.dtype.{f}', o[f].dtype == rg[f].dtype)
    c.ensure_shape(f'{name}.shape.{f}', o[f], sh)
  for f in ('z', 'dir_z', 'types', 'ids'):
    c.ensure(f'{name}.{f}', sh, lambda *ix: same(o[f][ix], rg[f][src(ix)]))
  if fr is None:
    for f in ('x', 'y', 'dir_x', 'dir_y', 'valid'):
      c.ensure(f'{name}.{f}', sh, lambda *ix: same(o[f][ix], rg[f][src(ix)]))
    return
  for j, f in enumerate(('x', 'y')):
    c.ensure(f'{name}.{f}', sh, lambda *ix: (lambda q: near(o[f][ix], local(q[0], q[1], q[2], rg.x[src(ix)], rg.y[src(ix)])[j], tol=1e-2))(fr(ix)))
  for j, f in enumerate(('dir_x', 'dir_y')):
    c.ensure(f'{name}.{f}', sh, lambda *ix: (lambda q: near(o[f][ix], rot(q[1], q[2], rg.dir_x[src(ix)], rg.dir_y[src(ix)])[j]))(fr(ix)))
  c.ensure(f'{name}.valid', sh, lambda *ix: (lambda q: Iff(o.valid[ix], And(rg.valid[src(ix)], q[3][q[2]])))(fr(ix)))


def moved_tl(c, name, o, tl, sh, src, fr):
  for f in ('x', 'y', 'z', 'state', 'lane_ids', 'valid'):
    c.ensure_fact(f'{name}.dtype.{f}', o[f].dtype == tl[f].dtype)
    c.ensure_shape(f'{name}.shape.{f}', o[f], sh)
  for f in ('z', 'state', 'lane_ids'):
    c.ensure(f'{name}.{f}', sh, lambda *ix: same(o[f][ix], tl[f][src(ix)]))
  if fr is None:
    for f in ('x', 'y', 'valid'):
      c.ensure(f'{name}.{f}', sh, lambda *ix: same(o[f][ix], tl[f][src(ix)]))
    return
  for j, f in enumerate(('x', 'y')):
    c.ensure(f'{name}.{f}', sh, lambda *ix: (lambda q: near(o[f][ix], local(q[0], q[1], q[2], tl.x[src(ix)], tl.y[src(ix)])[j], tol=1e-2))(fr(ix)))
  c.ensure(f'{name}.valid', sh, lambda *ix: (lambda q: Iff(o.valid[ix], And(tl.valid[src(ix)], q[3][q[2]])))(fr(ix)))


@contract('P16', 'transform_parts', 'transform_trajectory / transform_roadgraph_points / transform_traffic_lights', dims=dict(DOBS, M=(1, 3)), prefixes=[(), ('B',)])
def parts(c):
  pre = c.prefix + (c.dim('O'),)
  k = len(pre)
  xy, yaw, valid = pose_leaf(c, pre)
  tr = trajectory(c, pre + (c.dim('N'), c.dim('T')))
  rg = roadgraph(c, pre + (c.dim('M'),))
  tl = tlights(c, pre + (2, c.dim('T')))

  def f(tr, rg, tl, xy, yaw, v):
    p = OB.ObjectPose2D.from_center_and_yaw(xy, yaw, v)
    return OB.transform_trajectory(tr, p), OB.transform_roadgraph_points(rg, p), OB.transform_traffic_lights(tl, p)
  a, b, d = c.call(f, tr, rg, tl, xy, yaw, valid)
  fr = lambda ix: (xy, yaw, ix[:k], valid)
  me = lambda ix: ix
  moved_traj(c, 'traj', a, tr, tr.x.shape, me, fr)
  moved_rg(c, 'roadgraph', b, rg, rg.x.shape, me, fr)
  moved_tl(c, 'lights', d, tl, tl.x.shape, me, fr)


def sdc_rank(c, md, pre):
  """prefix index -> position of the ego vehicle (the first object flagged so)"""
  N = md.is_sdc.shape[-1]
  memo = {}

  def at(ix):
    k = tuple(sem._k(S.raw(i)) for i in ix) if not c.conc else None
    if k is None or k not in memo:
      memo[k] = argmax(N, lambda q: md.is_sdc[ix + (q,)])
    return memo[k] if k is not None else memo.pop(k)
  return at


def hist_src(c, st, H, k):
  """(prefix, rows..., h) -> the state index of history step h"""
  def t(ix):
    return tstep(st, ix[:k]) - (H - 1) + ix[-1]
  return t


def pose_spec(c, o, sh, fr, glob):
  if glob:
    c.ensure('pose.xy', sh + (2,), lambda *ix: o.pose2d.original_xy[ix] == 0)
    c.ensure('pose.yaw', sh, lambda *ix: And(o.pose2d.original_yaw[ix] == 0, o.pose2d.delta_yaw[ix] == 0, o.pose2d.valid[ix]))
    c.ensure('pose.matrix', sh + (3, 3), lambda *ix: o.pose2d.matrix[ix] == ite(ix[-1] == ix[-2], 1.0, 0.0))
    return
  c.ensure('pose.xy', sh, lambda *ix: (lambda q: And(same(o.pose2d.original_xy[ix + (0,)], q[0][q[2] + (0,)]), same(o.pose2d.original_xy[ix + (1,)], q[0][q[2] + (1,)])))(fr(ix)))
  c.ensure('pose.yaw', sh, lambda *ix: (lambda q: And(same(o.pose2d.original_yaw[ix], q[1][q[2]]), near(o.pose2d.delta_yaw[ix], -q[1][q[2]])))(fr(ix)))
  c.ensure('pose.valid', sh, lambda *ix: (lambda q: Iff(o.pose2d.valid[ix], q[3][q[2]]))(fr(ix)))


class At:
  """a trajectory field as an array over (prefix, object) at the current timestep"""

  def __init__(self, st, fs):
    self.st, self.fs = st, fs

  def __getitem__(self, ix):
    tr = self.st.sim_trajectory
    if len(self.fs) == 2:
      f, ix = self.fs[S.raw(ix[-1]) if isinstance(S.raw(ix[-1]), int) else int(S.raw(ix[-1]))], ix[:-1]
    else:
      f = self.fs[0]
    return tr[f][ix + (tstep(self.st, ix[:-1]),)]


@contract('P16', 'observation_from_state', 'observation_from_state / global_observation_from_state / transform_observation',
          dims=dict(N=(2, 3), T=(3, 5), M=(3, 5), K=(1, 2), B=(1, 2), _=('K + 1 <= M',)), prefixes=[(), ('B',)],
          variants=[dict(f=f, H=h) for f in ('GLOBAL', 'OBJECT', 'SDC') for h in (1, 3)], timeout=30)
def obs_all(c):
  obs_common(c, False)


@contract('P16', 'sdc_observation_from_state', 'sdc_observation_from_state',
          dims=dict(N=(2, 3), T=(3, 5), M=(3, 5), K=(1, 2), P=(1, 2), Q=(1, 3), B=(1, 2), _=('K + 1 <= M',)), prefixes=[(), ('B',)],
          variants=[dict(f=f, H=h) for f in ('GLOBAL', 'OBJECT', 'SDC') for h in (1, 3)], timeout=30)
def obs_sdc(c):
  obs_common(c, True)


def obs_common(c, only_sdc):
  pre, N, T, M, K, H = c.prefix, c.dim('N'), c.dim('T'), c.dim('M'), c.dim('K'), c.v['H']
  k = len(pre)
  st = sim_state(c, pre, t_lo=H - 1, t_hi=1, R='M', P=('P', 'Q') if only_sdc else None)
  frame = _config.CoordinateFrame[c.v['f']]
  topk = c.pydim('K')
  fn = OB.sdc_observation_from_state if only_sdc else OB.observation_from_state
  o = c.call(lambda s: fn(s, obs_num_steps=H, roadgraph_top_k=topk, coordinate_frame=frame), st)
  Od = 1 if only_sdc else N
  sh = pre + (Od,)
  sdc = sdc_rank(c, st.object_metadata, pre)
  xy, yaw, valid = At(st, ('x', 'y')), At(st, ('yaw',)), At(st, ('valid',))
  who = (lambda ix: ix[:k] + (sdc(ix[:k]),)) if only_sdc or c.v['f'] == 'SDC' else (lambda ix: ix[:k + 1])
  obsr = (lambda ix: ix[:k] + (sdc(ix[:k]),)) if only_sdc else (lambda ix: ix[:k + 1])
  fr = None if c.v['f'] == 'GLOBAL' else (lambda ix: (xy, yaw, who(ix), valid))
  tt = hist_src(c, st, H, k)
  src = lambda ix: ix[:k] + ix[k + 1:-1] + (tt(ix),)
  pose_spec(c, o, sh, fr, fr is None)
  moved_traj(c, 'traj', o.trajectory, st.sim_trajectory, sh + (N, H), src, fr)
  moved_tl(c, 'lights', o.traffic_lights, st.log_traffic_light, sh + (2, H), src, fr)
  rg = st.roadgraph_points

  def rsrc(ix):
    me = obsr(ix)
    memo = c.__dict__.setdefault('rk', {})
    key = tuple(sem._k(S.raw(i)) for i in ix[:k + 1]) if not c.conc else None
    if key is None or key not in memo:
      rx, ry = xy[me + (V_(0),)], xy[me + (V_(1),)]
      memo[key] = ranked(M, K, lambda q: ite(rg.valid[ix[:k] + (q,)], dist((rx, ry), (rg.x[ix[:k] + (q,)], rg.y[ix[:k] + (q,)])), INF()))
    f = memo[key] if key is not None else memo.pop(key)
    return ix[:k] + (f(ix[-1]),)
  moved_rg(c, 'roadgraph', o.roadgraph_static_points, rg, sh + (K,), rsrc, fr)
  md = st.object_metadata
  for f in all_fields(md):
    c.ensure_fact('metadata.dtype.' + f, o.metadata[f].dtype == md[f].dtype)
    c.ensure('metadata.' + f, sh + (N,), lambda *ix: same(o.metadata[f][ix], md[f][ix[:k] + ix[k + 1:]]))
  c.ensure_fact('is_ego.dtype', o.is_ego.dtype == bool)
  c.ensure('is_ego', sh + (N,), lambda *ix: Iff(o.is_ego[ix], md.is_sdc[ix[:k] + ix[k + 1:]] if only_sdc else ix[k] == ix[k + 1]))
  if only_sdc:
    for f in all_fields(st.sdc_paths):
      p = st.sdc_paths[f]
      c.ensure('paths.' + f, sh + p.shape[k:], lambda *ix: same(o.sdc_paths[f][ix], p[ix[:k] + ix[k + 1:]]))
