"""Metrics (P18-P22)."""
from .common import *
from jaxvc import sem
import jax
import jax.numpy as jnp
from waymax import metrics as M
from waymax.metrics import roadgraph as MR, route as MT, comfort as MC, overlap as MO, imitation as MI
from .c_geometry import overlap_ref, corner
from .c_dynamics import bike_ref

DM = dict(N=(1, 4), T=(1, 4), B=(1, 2))
PB = [(), ('B',)]


def metric_shape(c, o, sh):
  c.ensure_shape('shape.value', o.value, sh)
  c.ensure_shape('shape.valid', o.valid, sh)
  c.ensure_fact('dtype', o.value.jdtype == np.float32 and o.valid.jdtype == bool)


BOX = ('x', 'y', 'length', 'width', 'yaw')


def close_gens():
  g = lambda r, s: np.broadcast_to(r.uniform(-3, 3, s), s) if r.random() < 0.6 else r.integers(-3, 4, s) * 1.0
  return dict(x=g, y=g)


@contract('P18', 'OverlapMetric.compute', 'OverlapMetric.compute', dims=DM, prefixes=PB, timeout=30)
def overlap_metric(c):
  st = sim_state(c, c.prefix, t_hi=1)
  N = c.dim('N')
  o = c.call(lambda s: MO.OverlapMetric().compute(s), st)
  sh = c.prefix + (N,)
  metric_shape(c, o, sh)
  tr = st.sim_trajectory

  def box(pre, i):
    return lambda k: tr[BOX[k]][pre + (i, tstep(st, pre))]
  def hit(ix):
    pre, i = ix[:-1], ix[-1]
    return exists(N, lambda j: And(i != j, tr.valid[pre + (j, tstep(st, pre))], overlap_ref(box(pre, j), box(pre, i))))
  c.ensure('value', sh, lambda *ix: o.value[ix] == ite(hit(ix), 1.0, 0.0))
  c.ensure('valid', sh, lambda *ix: Iff(o.valid[ix], tr.valid[ix + (tstep(st, ix[:-1]),)]))


@contract('P19', 'LogDivergenceMetric.compute', 'LogDivergenceMetric.compute', dims=DM, prefixes=PB)
def divergence(c):
  st = sim_state(c, c.prefix, t_hi=1)
  N = c.dim('N')
  o = c.call(lambda s: MI.LogDivergenceMetric().compute(s), st)
  sh = c.prefix + (N,)
  metric_shape(c, o, sh)
  a, b = st.sim_trajectory, st.log_trajectory

  def d(ix):
    t = tstep(st, ix[:-1])
    dx, dy = a.x[ix + (t,)] - b.x[ix + (t,)], a.y[ix + (t,)] - b.y[ix + (t,)]
    return sqrt(dx * dx + dy * dy)
  c.ensure('value', sh, lambda *ix: near(o.value[ix], d(ix)))
  c.ensure('valid', sh, lambda *ix: Iff(o.valid[ix], And(a.valid[ix + (tstep(st, ix[:-1]),)], b.valid[ix + (tstep(st, ix[:-1]),)])))


@contract('P22', 'KinematicsInfeasibilityMetric.compute', 'KinematicsInfeasibilityMetric.compute / compute_inverse', dims=dict(N=(1, 4), T=(2, 4), B=(1, 3)), prefixes=[(), ('B',)],
          variants=[dict(), dict(dt=0.25, max_acc=3.0, max_steering=0.5), dict(t='scalar')])
def infeasible(c):
  kw = {k: v for k, v in c.v.items() if k != 't'}
  st = sim_state(c, c.prefix, t_hi=1, t_lo=1, t_shape=() if c.v.get('t') == 'scalar' else None)
  N = c.dim('N')
  o = c.call(lambda s: MC.KinematicsInfeasibilityMetric(**kw).compute(s), st)
  sh = c.prefix + (N,)
  metric_shape(c, o, sh)
  tr = st.sim_trajectory
  dt, ma, ms = fl(c.v.get('dt', 0.1)), fl(c.v.get('max_acc', 10.4)), fl(c.v.get('max_steering', 0.3))
  eps = fl(1e-3)
  ok = lambda ix: And(tr.valid[ix + (tstep(st, ix[:-1]) - 1,)], tr.valid[ix + (tstep(st, ix[:-1]),)])

  def bad(ix):
    a, s, mv, _ = bike_ref(tr, ix, tstep(st, ix[:-1]) - 1, dt)
    return Or(absv(a) > ma + eps, And(mv, absv(s) > ms + eps))
  c.ensure('value', sh, lambda *ix: Implies(ok(ix), o.value[ix] == ite(bad(ix), 1.0, 0.0)))
  c.ensure('invalid', sh, lambda *ix: Implies(Not(ok(ix)), o.value[ix] == 0))
  c.ensure('valid', sh, lambda *ix: Iff(o.valid[ix], ok(ix)))


# ------------------------------------------------------------------ off-road
def is_edge(rg, q):
  return And(rg.valid[q], Or(rg.types[q] == 15, rg.types[q] == 16))


def signed(rg, pre, M_, q):
  """signed distance of the point q = (x, y, z) to the nearest valid road edge point"""
  def d2(k):
    p = pre + (k,)
    dx, dy, dz = rg.x[p] - q[0], rg.y[p] - q[1], 2 * (rg.z[p] - q[2])
    return ite(is_edge(rg, p), dx * dx + dy * dy + dz * dz, INF())
  m = argmin(M_, d2)
  pm = maxv(m - 1, 0)
  P = lambda k: pre + (k,)
  ex, ey = q[0] - rg.x[P(m)], q[1] - rg.y[P(m)]
  cr = ex * rg.dir_y[P(m)] - ey * rg.dir_x[P(m)]
  cp = ex * rg.dir_y[P(pm)] - ey * rg.dir_x[P(pm)]
  side = ite(And(rg.ids[P(m)] == rg.ids[P(pm)], cp < cr), cp, cr)
  return sqrt(ex * ex + ey * ey) * ite(side > 0, 1.0, ite(side < 0, -1.0, 0.0))


EDGE = lambda r, s: r.choice(np.array([1, 2, 15, 16, 15, 16, 6]), s)


@contract('P20', 'signed_distance', 'compute_signed_distance_to_nearest_road_edge_point', dims=dict(Q=(1, 4), M=(1, 5)), timeout=30)
def signed_distance(c):
  Mp, Q = c.dim('M'), c.dim('Q')
  rg = roadgraph(c, (Mp,), types=EDGE)
  q = c.leaf('query', (Q, 3), f32, gen=g_pos)
  o = c.call(lambda q, r: MR.compute_signed_distance_to_nearest_road_edge_point(q, r), q, rg)
  c.ensure_shape('shape', o, (Q,))

  def p(i):
    return near(o[i], signed(rg, (), Mp, [q[i, 0], q[i, 1], q[i, 2]]))
  c.ensure('value', (Q,), lambda i: p(i))


@contract('P20', 'OffroadMetric.compute', 'OffroadMetric.compute / is_offroad', dims=dict(N=(1, 3), T=(1, 3), M=(1, 5), B=(1, 2)), prefixes=PB, timeout=30)
def offroad(c):
  pre, N, Mp = c.prefix, c.dim('N'), c.dim('M')
  st = sim_state(c, pre, t_hi=1, R='M')
  o = c.call(lambda s: MR.OffroadMetric().compute(s), st)
  sh = pre + (N,)
  metric_shape(c, o, sh)
  tr, rg = st.sim_trajectory, st.roadgraph_points

  def off(ix):
    pr = ix[:-1]
    t = tstep(st, pr)
    out = []
    for i in range(4):
      x, y = corner(lambda k: tr[BOX[k]][ix + (t,)], i)
      out.append(signed(rg, pr, Mp, [x, y, tr.z[ix + (t,)]]) > 0)
    return Or(*out)
  c.ensure('value', sh, lambda *ix: o.value[ix] == ite(off(ix), 1.0, 0.0))
  c.ensure('valid', sh, lambda *ix: o.valid[ix])


# ------------------------------------------------------------------ ego and its route
def with_ego(c, f, st):
  """call f on the state with the ego at an arbitrary position; returns (position leaf, result)"""
  N = st.sim_trajectory.x.shape[-2]
  n = c.pydim('N')
  pre = c.prefix
  pos = c.leaf('ego', pre, i32, where=lambda v, *ix: And(0 <= v, v < N), gen=lambda r, s: r.integers(0, int(S.raw(N)), s))

  def g(s, p):
    md = s.object_metadata
    return f(s.replace(object_metadata=md.replace(is_sdc=jnp.arange(n) == p[..., None])))
  o = c.call(g, st, pos)
  if not pre:
    c.hint(pos[()])
  return pos, o


DP = dict(N=(1, 3), T=(1, 3), P=(1, 3), K=(1, 4), B=(1, 2))


def pdist(p, pre, i, j, xy):
  dx, dy = xy[0] - p.x[pre + (i, j)], xy[1] - p.y[pre + (i, j)]
  return sqrt(dx * dx + dy * dy)


def near_pos(c, st):
  pass


@contract('P20', 'WrongWayMetric.compute', 'WrongWayMetric.compute', dims=DP, prefixes=PB, timeout=30)
def wrong_way(c):
  pre, P, K = c.prefix, c.dim('P'), c.dim('K')
  st = sim_state(c, pre, t_hi=1, P=('P', 'K'))
  pos, o = with_ego(c, lambda s: MR.WrongWayMetric().compute(s), st)
  metric_shape(c, o, pre)
  p = st.sdc_paths

  def me(ix):
    t = tstep(st, ix)
    return st.sim_trajectory.x[ix + (pos[ix], t)], st.sim_trajectory.y[ix + (pos[ix], t)]

  def dmin(ix):
    return min_(P, lambda i: min_(K, lambda j: ite(p.valid[ix + (i, j)], pdist(p, ix, i, j, me(ix)), INF())))
  some = lambda ix: exists(P, lambda i: exists(K, lambda j: p.valid[ix + (i, j)]))
  c.ensure('valid', pre, lambda *ix: Iff(o.valid[ix], some(ix)))
  c.ensure('value', pre, lambda *ix: Implies(some(ix), near(o.value[ix], ite(dmin(ix) < fl(3.5), 0.0, dmin(ix)))))
  c.ensure('none', pre, lambda *ix: Implies(Not(some(ix)), o.value[ix] == 0))


@contract('P21', 'OffRouteMetric.compute', 'OffRouteMetric.compute', dims=DP, prefixes=PB, timeout=30)
def off_route(c):
  pre, P, K = c.prefix, c.dim('P'), c.dim('K')
  st = sim_state(c, pre, t_hi=1, P=('P', 'K'))
  pos, o = with_ego(c, lambda s: MT.OffRouteMetric().compute(s), st)
  metric_shape(c, o, pre)
  p = st.sdc_paths

  def me(ix):
    t = tstep(st, ix)
    return st.sim_trajectory.x[ix + (pos[ix], t)], st.sim_trajectory.y[ix + (pos[ix], t)]
  sv = lambda ix: st.sim_trajectory.valid[ix + (pos[ix], tstep(st, ix))]

  def dmin(ix, on):
    sel = lambda i: p.on_route[ix + (i, 0)] if on else Not(p.on_route[ix + (i, 0)])
    return min_(P, lambda i: min_(K, lambda j: ite(And(sv(ix), p.valid[ix + (i, j)], sel(i)), pdist(p, ix, i, j, me(ix)), INF())))
  some = lambda ix: And(sv(ix), exists(P, lambda i: And(p.on_route[ix + (i, 0)], exists(K, lambda j: p.valid[ix + (i, j)]))))

  def val(ix):
    a, b = dmin(ix, True), dmin(ix, False)
    return ite(Or(a > 5, a - b > 2), a, 0.0)
  c.ensure('valid', pre, lambda *ix: Iff(o.valid[ix], some(ix)))
  c.ensure('value', pre, lambda *ix: Implies(some(ix), near(o.value[ix], val(ix))))
  c.ensure('none', pre, lambda *ix: Implies(Not(some(ix)), o.value[ix] == 0))


@contract('P21', 'ProgressionMetric.compute', 'ProgressionMetric.compute', dims=DP, prefixes=PB, timeout=30)
def progression(c):
  pre, P, K, T = c.prefix, c.dim('P'), c.dim('K'), c.dim('T')
  st = sim_state(c, pre, t_hi=1, P=('P', 'K'))
  pos, o = with_ego(c, lambda s: MT.ProgressionMetric().compute(s), st)
  metric_shape(c, o, pre)
  p = st.sdc_paths
  sim, log = st.sim_trajectory, st.log_trajectory
  at = lambda tr, ix, t: (tr.x[ix + (pos[ix], t)], tr.y[ix + (pos[ix], t)])
  me = lambda ix: at(sim, ix, tstep(st, ix))
  sv = lambda ix: sim.valid[ix + (pos[ix], tstep(st, ix))]

  def pd(ix, i):
    return min_(K, lambda j: ite(And(sv(ix), p.valid[ix + (i, j)], p.on_route[ix + (i, 0)]), pdist(p, ix, i, j, me(ix)), INF()))
  some = lambda ix: And(sv(ix), exists(P, lambda i: And(p.on_route[ix + (i, 0)], exists(K, lambda j: p.valid[ix + (i, j)]))))

  def val(ix):
    r = argmin(P, lambda i: pd(ix, i))
    arc = lambda xy: p.arc_length[ix + (r, argmin(K, lambda j: ite(p.valid[ix + (r, j)], pdist(p, ix, r, j, xy), INF())))]
    s, e, n = arc(at(log, ix, 0)), arc(at(log, ix, T - 1)), arc(me(ix))
    return ite(s == e, 1.0, (n - s) / (e - s))
  c.ensure('valid', pre, lambda *ix: Iff(o.valid[ix], some(ix)))
  c.ensure('value', pre, lambda *ix: Implies(some(ix), near(o.value[ix], val(ix))))
  c.ensure('none', pre, lambda *ix: Implies(Not(some(ix)), o.value[ix] == 0))
