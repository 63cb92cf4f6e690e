"""Frames, boxes, overlaps and derived trajectory quantities (P13, P14, P35)."""
from .common import *
import jax
import jax.numpy as jnp
from waymax import config as _config
from waymax.datatypes import observation as _obs
from waymax.datatypes import object_state, operations
from waymax.utils import geometry as G
from jaxvc import modular

P3 = [(), ('B',), ('A', 'B')]
DAB = dict(A=(1, 2), B=(1, 4))
g_ang = g_yaw


def mat3(c, pre, name='mat'):
  return c.leaf(name, pre + (3, 3), f32, gen=lambda r, s: r.uniform(-2, 2, s))


@contract('P13', 'rotation_matrix_2d', 'rotation_matrix_2d', dims=DAB, prefixes=P3)
def rotmat(c):
  a = c.leaf('angle', c.prefix, f32, gen=g_ang)
  m = c.call(lambda a: G.rotation_matrix_2d(a), a)
  c.ensure_shape('shape', m, c.prefix + (2, 2))
  want = lambda ix, i, j: cos(a[ix]) if i == j else (sin(a[ix]) if i else -sin(a[ix]))
  for i in range(2):
    for j in range(2):
      c.ensure(f'entry.{i}{j}', c.prefix, lambda *ix: near(m[ix + (i, j)], want(ix, i, j)))


@contract('P13', 'rotate_points', 'rotate_points', dims=dict(A=(1, 2), B=(1, 3), M=(1, 4)), prefixes=P3, variants=[dict(n=0, d=2), dict(n=1, d=2), dict(n=1, d=3)])
def rotpts(c):
  d = c.v['d']
  m = c.leaf('m', c.prefix + (d, d), f32)
  sh = c.prefix + (c.dim('M'),) * c.v['n']
  p = c.leaf('p', sh + (d,), f32)
  o = c.call(lambda m, p: G.rotate_points(m, p), m, p)
  c.ensure_shape('shape', o, sh + (d,))
  k = len(c.prefix)
  for i in range(d):
    def want(ix):
      s = m[ix[:k] + (i, 0)] * p[ix + (0,)]
      for j in range(1, d):
        s = s + m[ix[:k] + (i, j)] * p[ix + (j,)]
      return s
    c.ensure(f'row.{i}', sh, lambda *ix: near(o[ix + (i,)], want(ix)))


@contract('P13', 'pose_from_xy_yaw', 'pose_from_xy_yaw', dims=DAB, prefixes=P3)
def pose(c):
  xy = c.leaf('xy', c.prefix + (2,), f32, gen=g_pos)
  yaw = c.leaf('yaw', c.prefix, f32, gen=g_ang)
  m, dy = c.call(lambda a, b: G.pose_from_xy_yaw(a, b), xy, yaw)
  c.ensure_shape('shape', m, c.prefix + (3, 3))
  c.ensure('delta_yaw', c.prefix, lambda *ix: near(dy[ix], -yaw[ix]))
  C, Sn = lambda ix: cos(yaw[ix]), lambda ix: sin(yaw[ix])
  X, Y = lambda ix: xy[ix + (0,)], lambda ix: xy[ix + (1,)]
  want = [[C, Sn, lambda ix: -(C(ix) * X(ix) + Sn(ix) * Y(ix))], [lambda ix: -Sn(ix), C, lambda ix: Sn(ix) * X(ix) - C(ix) * Y(ix)],
          [lambda ix: V_(fl(0.0)), lambda ix: V_(fl(0.0)), lambda ix: V_(fl(1.0))]]
  for i in range(3):
    for j in range(3):
      c.ensure(f'entry.{i}{j}', c.prefix, lambda *ix: near(m[ix + (i, j)], want[i][j](ix)))


@contract('P13', 'transform_points', 'transform_points', dims=dict(A=(1, 2), B=(1, 3), M=(1, 3), K=(1, 3)), prefixes=P3, variants=[dict(n=0), dict(n=1), dict(n=2)])
def tpts(c):
  m = mat3(c, c.prefix)
  sh = c.prefix + (c.dim('M'), c.dim('K'))[:c.v['n']]
  p = c.leaf('p', sh + (2,), f32, gen=g_pos)
  o = c.call(lambda m, p: G.transform_points(m, p), m, p)
  k = len(c.prefix)
  c.ensure_shape('shape', o, sh + (2,))
  for i in range(2):
    c.ensure(f'coord.{i}', sh, lambda *ix: near(o[ix + (i,)], m[ix[:k] + (i, 0)] * p[ix + (0,)] + m[ix[:k] + (i, 1)] * p[ix + (1,)] + m[ix[:k] + (i, 2)]))


@contract('P13', 'transform_direction', 'transform_direction', dims=dict(A=(1, 2), B=(1, 3), M=(1, 3), K=(1, 3)), prefixes=P3, variants=[dict(n=0), dict(n=1), dict(n=2)])
def tdir(c):
  m = mat3(c, c.prefix)
  sh = c.prefix + (c.dim('M'), c.dim('K'))[:c.v['n']]
  p = c.leaf('p', sh + (2,), f32, gen=g_pos)
  o = c.call(lambda m, p: G.transform_direction(m, p), m, p)
  k = len(c.prefix)
  c.ensure_shape('shape', o, sh + (2,))
  for i in range(2):
    c.ensure(f'coord.{i}', sh, lambda *ix: near(o[ix + (i,)], m[ix[:k] + (i, 0)] * p[ix + (0,)] + m[ix[:k] + (i, 1)] * p[ix + (1,)]))


@contract('P13', 'transform_yaw', 'transform_yaw', dims=DAB, prefixes=P3)
def tyaw(c):
  a, b = c.leaf('a', c.prefix, f32, gen=g_ang), c.leaf('b', c.prefix, f32, gen=g_ang)
  o = c.call(lambda a, b: G.transform_yaw(a, b), a, b)
  c.ensure('sum', c.prefix, lambda *ix: near(o[ix], a[ix] + b[ix]))


@contract('P13', 'transform_trajectories', 'transform_trajectories', dims=dict(A=(1, 2), B=(1, 3), M=(1, 3)), prefixes=P3,
          variants=[dict(dof=5, n=0), dict(dof=7, n=0), dict(dof=5, n=1), dict(dof=7, n=1)])
def ttraj(c):
  dof = c.v['dof']
  m = mat3(c, c.prefix)
  dy = c.leaf('dy', c.prefix, f32, gen=g_ang)
  sh = c.prefix + (c.dim('M'),) * c.v['n']
  p = c.leaf('traj', sh + (dof,), f32, gen=g_pos)
  o = c.call(lambda t, m, y: G.transform_trajectories(t, m, y), p, m, dy)
  k = len(c.prefix)
  M = lambda ix, i, j: m[ix[:k] + (i, j)]
  c.ensure_shape('shape', o, sh + (dof,))
  for i in range(2):
    c.ensure(f'xy.{i}', sh, lambda *ix: near(o[ix + (i,)], M(ix, i, 0) * p[ix + (0,)] + M(ix, i, 1) * p[ix + (1,)] + M(ix, i, 2)))
    c.ensure(f'size.{i}', sh, lambda *ix: near(o[ix + (2 + i,)], p[ix + (2 + i,)]))
    if dof == 7:
      c.ensure(f'vel.{i}', sh, lambda *ix: near(o[ix + (5 + i,)], M(ix, i, 0) * p[ix + (5,)] + M(ix, i, 1) * p[ix + (6,)]))
  c.ensure('yaw', sh, lambda *ix: near(o[ix + (4,)], p[ix + (4,)] + dy[ix[:k]]))


@contract('P13', 'rigid_motion', 'transform_points . pose_from_xy_yaw', dims=dict(B=(1, 3)), prefixes=[('B',)])
def rigid(c):
  pre = c.prefix
  xy = c.leaf('xy', pre + (2,), f32, gen=g_pos)
  yaw = c.leaf('yaw', pre, f32, gen=g_ang)
  p = c.leaf('p', pre + (2,), f32, gen=g_pos)
  q = c.leaf('q', pre + (2,), f32, gen=g_pos)

  def f(xy, yaw, p, q):
    m, dy = G.pose_from_xy_yaw(xy, yaw)
    o = G.transform_points(m, jnp.zeros_like(xy))
    back, dyb = G.pose_from_xy_yaw(o, dy)
    lp = G.transform_points(m, p)
    return G.transform_points(m, xy), G.transform_yaw(dy, yaw), lp, G.transform_points(m, q), G.transform_points(back, lp), G.transform_yaw(dyb, G.transform_yaw(dy, yaw))
  own, oyaw, lp, lq, rt, ryaw = c.call(f, xy, yaw, p, q)
  c.ensure('own_position', pre + (2,), lambda *ix: near(own[ix], 0.0, tol=2e-2))
  c.ensure('own_heading', pre, lambda *ix: near(oyaw[ix], 0.0))
  d = lambda a, b, ix: (a[ix + (0,)] - b[ix + (0,)]) * (a[ix + (0,)] - b[ix + (0,)]) + (a[ix + (1,)] - b[ix + (1,)]) * (a[ix + (1,)] - b[ix + (1,)])
  c.ensure('distance', pre, lambda *ix: near(d(lp, lq, ix), d(p, q, ix), tol=2e-2))
  for k in range(2):
    c.ensure(f'roundtrip.{k}', pre, lambda *ix: near(rt[ix + (k,)], p[ix + (k,)], tol=2e-2))
  c.ensure('roundtrip.yaw', pre, lambda *ix: near(ryaw[ix], yaw[ix]))


@contract('P13', 'wrap_yaws', 'wrap_yaws', dims=DAB, prefixes=P3)
def wrapc(c):
  y = c.leaf('y', c.prefix, f32, gen=lambda r, s: r.uniform(-30, 30, s))
  o = c.call(lambda y: G.wrap_yaws(y), y)
  c.ensure('range', c.prefix, lambda *ix: in_turn(o[ix]))
  c.ensure('congruent', c.prefix, lambda *ix: near_angle(o[ix], wrap(y[ix])))


# ------------------------------------------------------------------ poses
def pose2d(c, pre, tag):
  xy = c.leaf(tag + 'xy', pre + (2,), f32, gen=g_pos)
  yaw = c.leaf(tag + 'yaw', pre, f32, gen=g_ang)
  valid = c.leaf(tag + 'valid', pre, b_)
  return xy, yaw, valid


def local(xy, yaw, ix, px, py):
  """position (px, py) in the frame at xy with heading yaw"""
  dx, dy = px - xy[ix + (0,)], py - xy[ix + (1,)]
  return cos(yaw[ix]) * dx + sin(yaw[ix]) * dy, cos(yaw[ix]) * dy - sin(yaw[ix]) * dx


@contract('P13', 'from_center_and_yaw', 'ObjectPose2D.from_center_and_yaw', dims=DAB, prefixes=P3, variants=[dict(valid=True), dict(valid=False)])
def from_center(c):
  pre = c.prefix
  xy, yaw, valid = pose2d(c, pre, 'p_')
  hv = c.v['valid']
  o = c.call(lambda a, b, v: _obs.ObjectPose2D.from_center_and_yaw(a, b, v if hv else None), xy, yaw, valid)
  c.ensure('xy', pre + (2,), lambda *ix: same(o.original_xy[ix], xy[ix]))
  c.ensure('yaw', pre, lambda *ix: same(o.original_yaw[ix], yaw[ix]))
  c.ensure('delta_yaw', pre, lambda *ix: near(o.delta_yaw[ix], -yaw[ix]))
  c.ensure('valid', pre, lambda *ix: Iff(o.valid[ix], valid[ix]) if hv else o.valid[ix])
  z = lambda ix: local(xy, yaw, ix, fl(0.0) if c.conc else 0.0, fl(0.0) if c.conc else 0.0)
  C, Sn = lambda ix: cos(yaw[ix]), lambda ix: sin(yaw[ix])
  for i in range(2):
    c.ensure(f'translation.{i}', pre, lambda *ix: near(o.matrix[ix + (i, 2)], z(ix)[i]))
    for j in range(2):
      w = lambda ix: C(ix) if i == j else (-Sn(ix) if i else Sn(ix))
      c.ensure(f'rotation.{i}{j}', pre, lambda *ix: near(o.matrix[ix + (i, j)], w(ix)))
  c.ensure('last_row', pre, lambda *ix: And(o.matrix[ix + (2, 0)] == 0, o.matrix[ix + (2, 1)] == 0, o.matrix[ix + (2, 2)] == 1))


@contract('P13', 'combine_two_object_pose_2d', 'combine_two_object_pose_2d / ObjectPose2D.from_transformation', dims=dict(B=(1, 3)), prefixes=[(), ('B',)])
def combine(c):
  pre = c.prefix
  sxy, syaw, sv = pose2d(c, pre, 's_')
  dxy, dyaw, dv = pose2d(c, pre, 'd_')
  p = c.leaf('p', pre + (2,), f32, gen=g_pos)

  def f(a, b, v, d, e, w, p):
    s = _obs.ObjectPose2D.from_center_and_yaw(a, b, v)
    t = _obs.ObjectPose2D.from_center_and_yaw(d, e, w)
    o = _obs.combine_two_object_pose_2d(s, t)
    return o, G.transform_points(o.matrix, G.transform_points(s.matrix, p)), G.transform_points(t.matrix, p), G.transform_points(s.matrix, d)
  o, both, direct, org = c.call(f, sxy, syaw, sv, dxy, dyaw, dv, p)
  for i in range(2):
    c.ensure(f'chained.{i}', pre, lambda *ix: near(both[ix + (i,)], direct[ix + (i,)], tol=2e-2))
    c.ensure(f'origin.{i}', pre, lambda *ix: near(o.original_xy[ix + (i,)], org[ix + (i,)], tol=2e-2))
  c.ensure('delta_yaw', pre, lambda *ix: near(o.delta_yaw[ix], syaw[ix] - dyaw[ix]))
  c.ensure('yaw', pre, lambda *ix: near(o.original_yaw[ix], dyaw[ix] - syaw[ix]))
  c.ensure('valid', pre, lambda *ix: Iff(o.valid[ix], And(sv[ix], dv[ix])))


# ------------------------------------------------------------------ boxes
SIGNS = [(1, -1), (1, 1), (-1, 1), (-1, -1)]


def corner(at, i):
  """corner i of the box given by at(0..4) = x, y, length, width, yaw"""
  a, b = SIGNS[i]
  c_, s_ = cos(at(4)), sin(at(4))
  h, w = at(2) / 2, at(3) / 2
  return at(0) + (h * c_) * a - (w * s_) * b, at(1) + (h * s_) * a + (w * c_) * b


@contract('P14', 'corners_from_bboxes', 'corners_from_bbox / corners_from_bboxes', dims=DAB, prefixes=P3)
@contract('P35', 'corners_from_bboxes', 'corners_from_bbox / corners_from_bboxes', dims=DAB, prefixes=P3)
def corners(c):
  b = c.leaf('bbox', c.prefix + (5,), f32, gen=g_pos)
  o = c.call(lambda b: G.corners_from_bboxes(b), b)
  c.ensure_shape('shape', o, c.prefix + (4, 2))
  for i in range(4):
    for j in range(2):
      c.ensure(f'corner.{i}{j}', c.prefix, lambda *ix: near(o[ix + (i, j)], corner(lambda k: b[ix + (k,)], i)[j]))


def boxes(c, pre, tag):
  def gen(r, s):
    x = np.zeros(s)
    x[..., 0:2] = r.uniform(-3, 3, s[:-1] + (2,)) if r.random() < 0.6 else r.integers(-3, 4, s[:-1] + (2,))
    x[..., 2:4] = r.choice(np.array([0.5, 1.0, 2.0, 4.0]), s[:-1] + (2,))
    x[..., 4] = r.uniform(-4, 4, s[:-1]) if r.random() < 0.6 else 0
    other = c.inputs.get('a') if tag == 'b' else None
    if r.random() < 0.7:
      if other is not None and other.shape == s:
        x = touching(r, other, x)
      elif tag == 'a' and len(s) > 1 and s[-2] > 1:
        x[..., 1:, :] = touching(r, np.broadcast_to(x[..., :1, :], x[..., 1:, :].shape), x[..., 1:, :])
    return x
  return c.leaf(tag, pre + (5,), f32, gen=gen)


def touching(r, a, b):
  """boxes b moved so that a corner or a side of each nearly meets a corner or a side of its partner in a"""
  b, sh = b.copy(), b.shape[:-1]

  def point(v):  # a corner or the middle of a side, from the centre of the box
    kx, ky = r.choice(np.array([-1, 1]), sh), r.choice(np.array([-1, 0, 1]), sh)
    swap = r.random(sh) < 0.5
    lx, ly = np.where(swap, ky, kx) * v[..., 2] / 2, np.where(swap, kx, ky) * v[..., 3] / 2
    return np.hypot(lx, ly), np.arctan2(ly, lx)
  ra, ta = point(a)
  rb, tb = point(b)
  out = ta + a[..., 4]
  if r.random() < 0.7:  # the two points face each other
    b[..., 4] = out + np.pi - tb
    off = out
  else:
    off = b[..., 4] + tb + np.pi
  gap = r.choice(np.array([-0.4, -0.1, -0.02, 0.02, 0.1, 0.4]), sh)
  b[..., 0] = a[..., 0] + (ra + gap) * np.cos(out) + rb * np.cos(off)
  b[..., 1] = a[..., 1] + (ra + gap) * np.sin(out) + rb * np.sin(off)
  return b


def separated(p, q):
  """some edge direction of p or q separates them (closed projections; touching separates).
  Extent of a box on an axis: centre +- half length and half width contributions."""
  out = []
  for r in (p, q):
    c_, s_ = cos(r(4)), sin(r(4))
    for ax in ((c_, s_), (-s_, c_)):
      ctr = absv((p(0) - q(0)) * ax[0] + (p(1) - q(1)) * ax[1])
      ext = None
      for b in (p, q):
        cb, sb = cos(b(4)), sin(b(4))
        e = absv(b(2) / 2 * (cb * ax[0] + sb * ax[1])) + absv(b(3) / 2 * (cb * ax[1] - sb * ax[0]))
        ext = e if ext is None else ext + e
      out.append(ctr >= ext)
  return Or(*out)


def axis_gap(p, q, r, k):
  """overlap length of the projections of the corners of p and q on axis k of r"""
  c_, s_ = cos(r(4)), sin(r(4))
  ax = (c_, s_) if k == 0 else (-s_, c_)
  ps = [(lambda x, y: x * ax[0] + y * ax[1])(*corner(p, i)) for i in range(4)]
  qs = [(lambda x, y: x * ax[0] + y * ax[1])(*corner(q, i)) for i in range(4)]
  mx = lambda v: maxv(maxv(v[0], v[1]), maxv(v[2], v[3]))
  mn = lambda v: minv(minv(v[0], v[1]), minv(v[2], v[3]))
  return minv(mx(ps), mx(qs)) - maxv(mn(ps), mn(qs))


def overlap_ref(p, q):
  if not S.CONC[0] and modular.replaced('has_overlap'):
    return modular.overlap(p, q)
  return And(*[axis_gap(p, q, r, k) > 0 for r in (p, q) for k in (0, 1)])


@contract('P14', 'has_overlap', 'has_overlap', dims=DAB, prefixes=P3, timeout=40)
def overlap(c):
  a, b = boxes(c, c.prefix, 'a'), boxes(c, c.prefix, 'b')
  o, rv = c.call(lambda a, b: (G.has_overlap(a, b), G.has_overlap(b, a)), a, b)
  c.ensure_shape('shape', o, c.prefix)
  at = lambda x, ix: (lambda k: x[ix + (k,)])
  c.ensure('separating_axes', c.prefix, lambda *ix: Iff(o[ix], overlap_ref(at(a, ix), at(b, ix))))
  c.ensure('symmetric', c.prefix, lambda *ix: Iff(o[ix], rv[ix]))


@contract('P14', 'compute_pairwise_overlaps', 'compute_pairwise_overlaps', dims=dict(N=(1, 4), B=(1, 3), A=(1, 2)), prefixes=P3, timeout=40)
def pairwise(c):
  N = c.dim('N')
  t = boxes(c, c.prefix + (N,), 'a')
  o = c.call(lambda a: G.compute_pairwise_overlaps(a), t)
  c.ensure_shape('shape', o, c.prefix + (N, N))
  k = len(c.prefix)
  at = lambda ix, i: (lambda q: t[ix[:k] + (i, q)])
  c.ensure('pairs', c.prefix + (N, N), lambda *ix: Iff(o[ix], And(ix[k] != ix[k + 1], overlap_ref(at(ix, ix[k]), at(ix, ix[k + 1])))))


# ------------------------------------------------------------------ trajectory properties
@contract('P35', 'trajectory.properties', 'Trajectory', dims=dict(N=(1, 3), T=(1, 4), B=(1, 2)), prefixes=[(), ('B',)])
def props(c):
  sh = c.prefix + (c.dim('N'), c.dim('T'))
  tr = trajectory(c, sh)

  def f(t):
    return dict(xy=t.xy, xyz=t.xyz, vel_xy=t.vel_xy, speed=t.speed, vel_yaw=t.vel_yaw, corners=t.bbox_corners, st=t.stack_fields(['yaw', 'x', 'length']))
  o = c.call(f, tr)
  c.ensure_fact('shape', True)
  for k, fs in dict(xy=('x', 'y'), xyz=('x', 'y', 'z'), vel_xy=('vel_x', 'vel_y'), st=('yaw', 'x', 'length')).items():
    c.ensure_shape('shape.' + k, o[k], sh + (len(fs),))
    for j, g in enumerate(fs):
      c.ensure(f'{k}.{g}', sh, lambda *ix: same(o[k][ix + (j,)], tr[g][ix]))
  vx, vy = lambda ix: tr.vel_x[ix], lambda ix: tr.vel_y[ix]
  c.ensure('speed', sh, lambda *ix: near(o['speed'][ix], ite(tr.valid[ix], sqrt(vx(ix) * vx(ix) + vy(ix) * vy(ix)), -1.0)))
  c.ensure('vel_yaw', sh, lambda *ix: near(o['vel_yaw'][ix], ite(tr.valid[ix], atan2(vy(ix), vx(ix)), -1.0)))
  fs = ('x', 'y', 'length', 'width', 'yaw')
  for i in range(4):
    for j in range(2):
      c.ensure(f'corner.{i}{j}', sh, lambda *ix: near(o['corners'][ix + (i, j)], corner(lambda k: tr[fs[k]][ix], i)[j]))


@contract('P35', 'fill_invalid_trajectory', 'fill_invalid_trajectory', dims=dict(N=(1, 3), T=(1, 4), B=(1, 2)), prefixes=[(), ('B',)])
def fill(c):
  sh = c.prefix + (c.dim('N'), c.dim('T'))
  tr = trajectory(c, sh)
  o, z = c.call(lambda t: (object_state.fill_invalid_trajectory(t), object_state.Trajectory.zeros(t.shape)), tr)
  for f in all_fields(tr):
    c.ensure_fact('dtype.' + f, o[f].dtype == tr[f].dtype and z[f].dtype == tr[f].dtype)
    c.ensure_shape('shape.' + f, o[f], sh)
    c.ensure_shape('zshape.' + f, z[f], sh)
    if f == 'valid':
      c.ensure('valid', sh, lambda *ix: And(Not(o.valid[ix]), Not(z.valid[ix])))
    else:
      c.ensure(f, sh, lambda *ix: And(o[f][ix] == -1, z[f][ix] == 0))


@contract('P35', 'get_control_mask', 'get_control_mask', dims=dict(N=(1, 4), B=(1, 2)), prefixes=[(), ('B',)],
          variants=[dict(o='SDC'), dict(o='MODELED'), dict(o='VALID')])
def ctlmask(c):
  pre = c.prefix + (c.dim('N'),)
  md = metadata(c, pre)
  ot = _config.ObjectType[c.v['o']]
  o = c.call(lambda m: datatypes.get_control_mask(m, ot), md)
  want = dict(SDC=lambda ix: md.is_sdc[ix], MODELED=lambda ix: md.is_modeled[ix], VALID=lambda ix: md.is_valid[ix])[c.v['o']]
  c.ensure_fact('dtype', o.dtype == bool)
  c.ensure('mask', pre, lambda *ix: Iff(o[ix], want(ix)))
