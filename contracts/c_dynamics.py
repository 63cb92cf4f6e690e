from .common import *
from waymax import dynamics
from waymax.dynamics import abstract_dynamics

BV = [dict(), dict(normalize_actions=True), dict(dt=0.25, max_accel=3.0, max_steering=0.5)]


@contract('P09', 'bicycle.compute_update', 'InvertibleBicycleModel.compute_update', dims=dict(N=(1, 4), B=(1, 2)), prefixes=[(), ('B',)], variants=BV)
def bicycle_update(c):
  N = c.dim('N')
  pre = c.prefix + (N,)
  model = dynamics.InvertibleBicycleModel(**c.v)
  dt = fl(c.v.get('dt', 0.1))
  ma, ms = c.v.get('max_accel', 6.0), c.v.get('max_steering', 0.3)
  norm = c.v.get('normalize_actions', False)
  tr = trajectory(c, pre + (1,))
  act = action(c, pre, 2)
  out = c.call(lambda a, t: model.compute_update(a, t), act, tr)

  def vals(ix):
    a, s = act.data[ix + (0,)], act.data[ix + (1,)]
    if norm:
      a, s = clip(a, -1.0, 1.0) * fl(ma), clip(s, -1.0, 1.0) * fl(ms)
    else:
      a, s = clip(a, fl(-ma), fl(ma)), clip(s, fl(-ms), fl(ms))
    at = lambda f: tr[f][ix + (0,)]
    v = sqrt(at('vel_x') * at('vel_x') + at('vel_y') * at('vel_y'))
    return a, s, at, v
  z = (0,)

  def px(*ix):
    a, s, at, v = vals(ix)
    return near(out.x[ix + z], at('x') + at('vel_x') * dt + cos(at('yaw')) * a * dt * dt / 2)

  def py(*ix):
    a, s, at, v = vals(ix)
    return near(out.y[ix + z], at('y') + at('vel_y') * dt + sin(at('yaw')) * a * dt * dt / 2)

  def pyaw(*ix):
    a, s, at, v = vals(ix)
    y = wrap(at('yaw') + s * (v * dt + a * dt * dt / 2))
    return And(near_angle(out.yaw[ix + z], y), in_turn(out.yaw[ix + z]))

  def pv(*ix):
    a, s, at, v = vals(ix)
    nv = v + a * dt
    return And(near(out.vel_x[ix + z], nv * cos(out.yaw[ix + z])), near(out.vel_y[ix + z], nv * sin(out.yaw[ix + z])))
  c.ensure('x', pre, px)
  c.ensure('y', pre, py)
  c.ensure('yaw', pre, pyaw)
  c.ensure('velocity', pre, pv)
  c.ensure('valid', pre, lambda *ix: Iff(out.valid[ix + z], And(tr.valid[ix + z], act.valid[ix + z])))


# ------------------------------------------------------------------ delta
DV = [dict(), dict(dt=0.5, max_dx=2.0, max_dy=3.0, max_dyaw=1.0)]


def mk_delta(c, local):
  cls = dynamics.DeltaLocal if local else dynamics.DeltaGlobal
  kw = {k: v for k, v in c.v.items()}
  m = cls(**kw)
  dyaw = fl(kw['max_dyaw']) if 'max_dyaw' in kw else pi()
  return m, fl(kw.get('dt', 0.1)), (fl(kw.get('max_dx', 6.0)), fl(kw.get('max_dy', 6.0)), dyaw)


def delta_update(c, local):
  N = c.dim('N')
  pre = c.prefix + (N,)
  model, dt, _ = mk_delta(c, local)
  tr = trajectory(c, pre + (1,))
  act = action(c, pre, 3)
  out = c.call(lambda a, t: model.compute_update(a, t), act, tr)
  z = (0,)

  def disp(ix):
    dx, dy = act.data[ix + (0,)], act.data[ix + (1,)]
    if local:
      y = tr.yaw[ix + z]
      dx, dy = cos(y) * dx - sin(y) * dy, sin(y) * dx + cos(y) * dy
    return dx, dy
  c.ensure('x', pre, lambda *ix: near(out.x[ix + z], tr.x[ix + z] + disp(ix)[0]))
  c.ensure('y', pre, lambda *ix: near(out.y[ix + z], tr.y[ix + z] + disp(ix)[1]))
  c.ensure('yaw', pre, lambda *ix: near_angle(out.yaw[ix + z], tr.yaw[ix + z] + act.data[ix + (2,)]))
  c.ensure('vel_x', pre, lambda *ix: near(out.vel_x[ix + z], disp(ix)[0] / dt))
  c.ensure('vel_y', pre, lambda *ix: near(out.vel_y[ix + z], disp(ix)[1] / dt))
  c.ensure('valid', pre, lambda *ix: Iff(out.valid[ix + z], And(tr.valid[ix + z], act.valid[ix + z])))


def delta_inverse(c, local):
  N, T = c.dim('N'), c.dim('T')
  pre = c.prefix + (N,)
  model, dt, lim = mk_delta(c, local)
  tr = trajectory(c, pre + (T,))
  md = metadata(c, pre)
  ts = timestep(c, (), T)
  out = c.call(lambda t, m, k: model.inverse(t, m, k), tr, md, ts)
  t = ts[()]
  ok = lambda ix: And(tr.valid[ix + (t,)], tr.valid[ix + (t + 1,)])

  def raw_(ix):
    d = [tr[f][ix + (t + 1,)] - tr[f][ix + (t,)] for f in ('x', 'y', 'yaw')]
    return d
  c.ensure('valid', pre, lambda *ix: Iff(out.valid[ix + (0,)], ok(ix)))
  for k, f in enumerate(('dx', 'dy')):
    def p(*ix):
      d = raw_(ix)
      if local:
        y = tr.yaw[ix + (t,)]
        inside = And(absv(d[0]) <= lim[0], absv(d[1]) <= lim[1])
        v = cos(y) * d[0] + sin(y) * d[1] if k == 0 else cos(y) * d[1] - sin(y) * d[0]
        return Implies(And(ok(ix), inside), near(out.data[ix + (k,)], clip(v, -lim[k], lim[k])))
      return Implies(ok(ix), near(out.data[ix + (k,)], clip(d[k], -lim[k], lim[k])))
    c.ensure(f, pre, p)
  c.ensure('dyaw', pre, lambda *ix: Implies(ok(ix), near_angle(out.data[ix + (2,)], clip(wrap(raw_(ix)[2]), -lim[2], lim[2]))))
  c.ensure('zero_if_invalid', pre + (3,), lambda *ix: Implies(Not(ok(ix[:-1])), near(out.data[ix], 0.0)))
  e = 1e-5 if c.conc else 0
  c.ensure('in_limits', pre, lambda *ix: And(*[And(-lim[k] - e <= out.data[ix + (k,)], out.data[ix + (k,)] <= lim[k] + e) for k in range(3)]))


DD = dict(N=(1, 4), B=(1, 2))
DT = dict(N=(1, 4), T=(2, 6), B=(1, 2))
P2 = [(), ('B',)]


@contract('P08', 'delta_global.compute_update', 'DeltaGlobal.compute_update', dims=DD, prefixes=P2, variants=DV)
def dgu(c): delta_update(c, False)


@contract('P08', 'delta_local.compute_update', 'DeltaLocal.compute_update', dims=DD, prefixes=P2, variants=DV)
def dlu(c): delta_update(c, True)


@contract('P08', 'delta_global.inverse', 'DeltaGlobal.inverse', dims=DT, prefixes=P2, variants=DV)
def dgi(c): delta_inverse(c, False)


@contract('P08', 'delta_local.inverse', 'DeltaLocal.inverse', dims=DT, prefixes=P2, variants=DV)
def dli(c): delta_inverse(c, True)


@contract('P08', 'delta.action_spec', 'DeltaGlobal.action_spec', variants=[dict(cls='g'), dict(cls='l', max_dx=2.0, max_dy=3.0, max_dyaw=1.0)])
def delta_spec(c):
  kw = {k: v for k, v in c.v.items() if k != 'cls'}
  m = (dynamics.DeltaGlobal if c.v['cls'] == 'g' else dynamics.DeltaLocal)(**kw)
  s = m.action_spec()
  hi = [kw.get('max_dx', 6.0), kw.get('max_dy', 6.0), kw.get('max_dyaw', np.pi)]
  c.ensure_fact('spec', tuple(s.shape) == (3,) and np.allclose(s.maximum, hi) and np.allclose(s.minimum, -np.array(hi)))


@contract('P08', 'delta.roundtrip', 'DeltaGlobal/DeltaLocal.inverse . compute_update', dims=dict(N=(1, 4)), variants=[dict(local=False), dict(local=True)])
def delta_round(c):
  """the inverse of a step made by the model is the action that made it (within limits)"""
  local = c.v['local']
  model = (dynamics.DeltaLocal if local else dynamics.DeltaGlobal)()
  N = c.dim('N')
  pre = (N,)
  tr = trajectory(c, pre + (1,))
  act = action(c, pre, 3, gen=lambda r, s: r.uniform(-3.1, 3.1, s))

  def f(t, a):
    import jax.numpy as jnp
    u = model.compute_update(a, t)
    nxt = t.replace(x=u.x, y=u.y, yaw=u.yaw, vel_x=u.vel_x, vel_y=u.vel_y, valid=u.valid)
    import jax
    both = jax.tree_util.tree_map(lambda p, q: jnp.concatenate([p, q], axis=-1), t, nxt)
    return model.inverse(both, None, 0)
  out = c.call(f, tr, act)
  d = lambda ix, k: act.data[ix + (k,)]
  lim2 = 36 if local else None

  def pre_ok(ix):
    ok = And(tr.valid[ix + (0,)], act.valid[ix + (0,)])
    if local:
      return And(ok, d(ix, 0) * d(ix, 0) + d(ix, 1) * d(ix, 1) <= 36)
    return And(ok, absv(d(ix, 0)) <= 6, absv(d(ix, 1)) <= 6)

  def hintlem(ix):
    # |R d| <= |d|: bounds of the rotated displacement
    return None
  if local:
    y = lambda ix: tr.yaw[ix + (0,)]
    gx = lambda ix: cos(y(ix)) * d(ix, 0) - sin(y(ix)) * d(ix, 1)
    gy = lambda ix: sin(y(ix)) * d(ix, 0) + cos(y(ix)) * d(ix, 1)
    use = c.lemma('rotation_keeps_length', pre, lambda *ix: And(near(gx(ix) * gx(ix) + gy(ix) * gy(ix), d(ix, 0) * d(ix, 0) + d(ix, 1) * d(ix, 1))))
  for k in range(2):
    c.ensure(('dx', 'dy')[k], pre, lambda *ix: Implies(pre_ok(ix), near(out.data[ix + (k,)], d(ix, k))))
  c.ensure('dyaw', pre, lambda *ix: Implies(And(pre_ok(ix), -pi() <= d(ix, 2), d(ix, 2) < pi()), near_angle(out.data[ix + (2,)], d(ix, 2))))


# ------------------------------------------------------------------ bicycle inverse
BI = [dict(), dict(normalize_actions=True), dict(normalize_actions=True, dt=0.25, max_accel=3.0, max_steering=0.5)]


def bike_ref(tr, ix, t, dt):
  """acceleration and curvature between steps t and t+1; sp0, sp1"""
  at = lambda f, k: tr[f][ix + (t + k,)]
  sp = [sqrt(at('vel_x', k) * at('vel_x', k) + at('vel_y', k) * at('vel_y', k)) for k in (0, 1)]
  a = (sp[1] - sp[0]) / dt
  moving = And(sp[0] >= fl(0.6), sp[1] >= fl(0.6))
  ny = ite(sp[1] <= fl(0.6), wrap(at('yaw', 1)), atan2(at('vel_y', 1), at('vel_x', 1)))
  dyaw = wrap(ny - wrap(at('yaw', 0)))
  dist = sp[0] * dt + a * dt * dt / 2
  s = dyaw / dist
  return a, s, moving, sp


def _bike_inverse(c):
  N, T = c.dim('N'), c.dim('T')
  pre = c.prefix + (N,)
  model = dynamics.InvertibleBicycleModel(**c.v)
  dt = fl(c.v.get('dt', 0.1))
  ma, ms = fl(c.v.get('max_accel', 6.0)), fl(c.v.get('max_steering', 0.3))
  norm = c.v.get('normalize_actions', False)
  tr = trajectory(c, pre + (T,))
  md = metadata(c, pre)
  ts = timestep(c, (), T)
  out = c.call(lambda t, m, k: model.inverse(t, m, k), tr, md, ts)
  t = ts[()]
  ok = lambda ix: And(tr.valid[ix + (t,)], tr.valid[ix + (t + 1,)])
  sc = (lambda v, m: clip(v / m, -1, 1)) if norm else (lambda v, m: clip(v, -m, m))
  lim = (1, 1) if norm else (ma, ms)
  c.ensure('valid', pre, lambda *ix: Iff(out.valid[ix + (0,)], ok(ix)))
  c.ensure('accel', pre, lambda *ix: Implies(ok(ix), near(out.data[ix + (0,)], sc(bike_ref(tr, ix, t, dt)[0], ma))))

  mv = lambda ix: bike_ref(tr, ix, t, dt)[2]
  c.ensure('steering.moving', pre, lambda *ix: Implies(And(ok(ix), mv(ix)), near(out.data[ix + (1,)], sc(bike_ref(tr, ix, t, dt)[1], ms))))
  c.ensure('steering.slow', pre, lambda *ix: Implies(And(ok(ix), Not(mv(ix))), near(out.data[ix + (1,)], 0.0)))
  c.ensure('zero_if_invalid', pre + (2,), lambda *ix: Implies(Not(ok(ix[:-1])), near(out.data[ix], 0.0)))
  for k in range(2):
    c.ensure(f'in_limits.{k}', pre, lambda *ix: And(-lim[k] <= out.data[ix + (k,)], out.data[ix + (k,)] <= lim[k]))


@contract('P10', 'bicycle.inverse', 'InvertibleBicycleModel.inverse / compute_inverse', dims=DT, prefixes=P2, variants=BI)
def bike_inverse(c): _bike_inverse(c)


@contract('P10', 'bicycle.action_spec', 'InvertibleBicycleModel.action_spec', variants=BI)
def bike_spec(c):
  s = dynamics.InvertibleBicycleModel(**c.v).action_spec()
  hi = [1.0, 1.0] if c.v.get('normalize_actions') else [c.v.get('max_accel', 6.0), c.v.get('max_steering', 0.3)]
  c.ensure_fact('spec', tuple(s.shape) == (2,) and np.allclose(s.maximum, hi) and np.allclose(s.minimum, -np.array(hi)))


@contract('P10', 'bicycle.roundtrip', 'InvertibleBicycleModel.inverse . compute_update', dims=dict(N=(1, 4)), variants=[dict(), dict(normalize_actions=True)])
def bike_round(c):
  model = dynamics.InvertibleBicycleModel(**c.v)
  N = c.dim('N')
  pre = (N,)
  ma, ms = (6.0, 0.3)
  norm = c.v.get('normalize_actions', False)
  tr = trajectory(c, pre + (1,), gens=dict(vel_x=lambda r, s: r.uniform(-20, 20, s)))
  sh = lambda r, s: np.stack([r.uniform(-6, 6, s[:-1]) / (6 if norm else 1), r.uniform(-0.3, 0.3, s[:-1]) / (0.3 if norm else 1)], -1)
  act = action(c, pre, 2, gen=sh)

  def f(t, a):
    import jax
    import jax.numpy as jnp
    u = model.compute_update(a, t)
    nxt = t.replace(x=u.x, y=u.y, yaw=u.yaw, vel_x=u.vel_x, vel_y=u.vel_y, valid=u.valid)
    both = jax.tree_util.tree_map(lambda p, q: jnp.concatenate([p, q], axis=-1), t, nxt)
    return u, model.inverse(both, None, 0)
  u, out = c.call(f, tr, act)
  z = (0,)
  k = (fl(ma), fl(ms)) if norm else (1, 1)
  a = lambda ix: act.data[ix + (0,)] * k[0]
  s = lambda ix: act.data[ix + (1,)] * k[1]
  v = lambda ix: sqrt(tr.vel_x[ix + z] * tr.vel_x[ix + z] + tr.vel_y[ix + z] * tr.vel_y[ix + z])
  dt = fl(0.1)
  v1 = lambda ix: v(ix) + a(ix) * dt
  dist = lambda ix: v(ix) * dt + a(ix) * dt * dt / 2
  e = 0.01 if c.conc else 0

  def pre_ok(ix):
    return And(tr.valid[ix + z], act.valid[ix + z], absv(a(ix)) <= fl(ma) - e, absv(s(ix)) <= fl(ms) - e,
               v(ix) > fl(0.6) + e, v1(ix) > fl(0.6) + e)
  # lemmas about the forward step
  nspeed = lambda ix: sqrt(u.vel_x[ix + z] * u.vel_x[ix + z] + u.vel_y[ix + z] * u.vel_y[ix + z])
  l1 = c.lemma('speed_after', pre, lambda *ix: Implies(pre_ok(ix), near(nspeed(ix), v1(ix))))
  c.ensure('accel', pre, lambda *ix: Implies(pre_ok(ix), near(out.data[ix + (0,)], act.data[ix + (0,)])))
  # the heading recovered from the velocity
  A_ = lambda ix: atan2(u.vel_y[ix + z], u.vel_x[ix + z])
  B_ = lambda ix: u.yaw[ix + z]
  turn = lambda ix: s(ix) * dist(ix)
  ok2 = lambda ix: And(pre_ok(ix), absv(turn(ix)) < pi() - e)
  yaw = lambda ix: tr.yaw[ix + z]
  m_wrap = c.math('turn', 4, lambda y, x, a, k: Implies(And(absv(x) < pi(), a == wrap(y + x) + pi(2) * k), near(wrap(a - wrap(y)), x)), kinds='fffi')
  m_div = c.math('ratio', 2, lambda p, q: Implies(q > 0, near((p * q) / q, p)))
  # p: (r sin b, r cos b) = r0 (sin a, cos a), r = r0 > 0  =>  same direction
  def p_dir(*ix):
    l1(*ix)
    return Implies(pre_ok(ix), And(near(sin(A_(ix)), sin(B_(ix))), near(cos(A_(ix)), cos(B_(ix)))))
  l2 = c.lemma('direction_after', pre, p_dir)
  l5 = c.lemma('distance_positive', pre, lambda *ix: Implies(pre_ok(ix), dist(ix) > 0))
  l6 = c.lemma('yaw_after', pre, lambda *ix: Implies(pre_ok(ix), near_angle(B_(ix), wrap(yaw(ix) + turn(ix)))))
  delta = lambda ix: wrap(A_(ix) - wrap(yaw(ix)))

  def p_delta(*ix):
    l2(*ix)
    l6(*ix)
    k = c.fresh_int('turns')
    m_wrap(yaw(ix), turn(ix), A_(ix), k)
    c.trusted(same_angle_axiom(A_(ix), B_(ix), k))
    return Implies(ok2(ix), near_angle(delta(ix), turn(ix)))
  l4 = c.lemma('turned_by', pre, p_delta)

  def p_steer(*ix):
    l1(*ix)
    l4(*ix)
    l5(*ix)
    m_div(s(ix), dist(ix))
    return Implies(ok2(ix), near(out.data[ix + (1,)], act.data[ix + (1,)], tol=0.02))
  c.ensure('steering', pre, p_steer)
