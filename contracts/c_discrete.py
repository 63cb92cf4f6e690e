"""Discretiser and discrete action spaces (P11, P12)."""
from .common import *
import jax.numpy as jnp
from waymax import dynamics
from waymax.dynamics import discretizer as disc

BINS = [dict(bins=(4,)), dict(bins=(2, 3)), dict(bins=(3, 1, 4))]


def strides(bins):
  st, k = [], 1
  for b in reversed(bins):
    st.insert(0, k)
    k *= b + 1
  return st, k


def digit(i, bins, k):
  st, tot = strides(bins)
  if hasattr(S.raw(i), 'dtype'):
    return V((S.raw(i) // st[k]) % (bins[k] + 1))
  t = S.T.I(S.raw(i))
  return V((t / st[k]) % (bins[k] + 1))


def limits(c, n):
  lo = c.leaf('lo', (n,), f32, gen=lambda r, s: r.choice(np.array([-6.0, -1.0, -0.5, 0.0]), s))
  hi = c.leaf('hi', (n,), f32, gen=lambda r, s: r.choice(np.array([0.25, 1.0, 2.0, 6.0]), s))
  for k in range(n):
    c.require(lo[k] < hi[k])
  return lo, hi


@contract('P11', 'discretize', 'Discretizer.discretize', dims=dict(M=(1, 6), B=(1, 3)), prefixes=[('M',), ('B', 'M')], variants=BINS, samples=16)
def discretize(c):
  bins = c.v['bins']
  n = len(bins)
  st, tot = strides(bins)
  lo, hi = limits(c, n)
  x = c.leaf('x', c.prefix + (n,), f32, gen=lambda r, s: r.uniform(-8, 8, s))
  out = c.call(lambda a, b, v: disc.Discretizer(a, b, np.array(bins)).discretize(v), lo, hi, x)
  c.ensure_shape('shape', out, c.prefix + (1,))
  c.ensure_fact('integer', out.dtype.kind == 'i')
  c.ensure('in_range', c.prefix, lambda *ix: And(0 <= out[ix + (0,)], out[ix + (0,)] < tot))
  for k in range(n):
    def nearest(*ix):
      d = digit(out[ix + (0,)], bins, k)
      step = (hi[k] - lo[k]) / bins[k]
      v = clip(x[ix + (k,)], lo[k], hi[k])
      return absv((v - lo[k]) / step - tofloat(d)) <= (0.5 if not c.conc else 0.5005)
    c.ensure(f'nearest.{k}', c.prefix, nearest)


@contract('P11', 'make_continuous', 'Discretizer.make_continuous', dims=dict(M=(1, 6), B=(1, 3)), prefixes=[('M',), ('B', 'M')], variants=BINS)
def make_continuous(c):
  bins = c.v['bins']
  n = len(bins)
  st, tot = strides(bins)
  lo, hi = limits(c, n)
  i = c.leaf('i', c.prefix + (1,), i32, where=lambda v, *ix: And(0 <= v, v < tot), gen=lambda r, s: r.integers(0, tot, s))

  def f(a, b, j):
    d = disc.Discretizer(a, b, np.array(bins))
    v = d.make_continuous(j)
    return v, d.discretize(v)
  v, back = c.call(f, lo, hi, i)
  c.ensure_shape('shape', v, c.prefix + (n,))
  for k in range(n):
    c.ensure(f'grid.{k}', c.prefix, lambda *ix: near(v[ix + (k,)], lo[k] + tofloat(digit(i[ix + (0,)], bins, k)) * (hi[k] - lo[k]) / bins[k]))
    c.ensure(f'inside.{k}', c.prefix, lambda *ix: And(lo[k] <= v[ix + (k,)], v[ix + (k,)] <= hi[k]))
  c.ensure('roundtrip', c.prefix, lambda *ix: back[ix + (0,)] == i[ix + (0,)])


@contract('P11', 'discretizer.rejects', 'Discretizer.__init__ / discretize')
def rejects(c):
  def bad(*a):
    try:
      disc.Discretizer(*a)
      return False
    except ValueError:
      return True
  z = lambda n: jnp.zeros((n,))
  o = lambda n: jnp.ones((n,))
  b = lambda n: jnp.full((n,), 3)
  c.ensure_fact('min/max mismatch', bad(z(2), o(3), b(2)))
  c.ensure_fact('bins mismatch', bad(z(2), o(2), b(3)))
  c.ensure_fact('all mismatch', bad(z(1), o(2), b(3)))
  c.ensure_fact('min mismatch', bad(z(1), o(2), b(2)))
  c.ensure_fact('match accepted', not bad(z(2), o(2), b(2)))
  d = disc.Discretizer(z(2), o(2), b(2))
  try:
    d.discretize(jnp.zeros((4, 3)))
    ok = False
  except ValueError:
    ok = True
  c.ensure_fact('value shape mismatch', ok)


# ------------------------------------------------------------------ wrapper
def base_model(kind):
  if kind == 'bicycle':
    return dynamics.InvertibleBicycleModel(normalize_actions=True)
  if kind == 'local':
    return dynamics.DeltaLocal(max_dx=2.0, max_dy=1.0, max_dyaw=0.5)
  return dynamics.DeltaGlobal(max_dx=4.0, max_dy=2.0, max_dyaw=1.0)


WV = [dict(kind='global', bins=(2, 1, 4)), dict(kind='local', bins=(1, 2, 4)), dict(kind='bicycle', bins=(4, 2))]


@contract('P12', 'wrapper.compute_update', 'DiscreteActionSpaceWrapper.compute_update', dims=dict(N=(1, 4), B=(1, 2)), prefixes=[(), ('B',)], variants=WV)
def wrap_update(c):
  bins = c.v['bins']
  st, tot = strides(bins)
  n = len(bins)
  model = base_model(c.v['kind'])
  w = dynamics.DiscreteActionSpaceWrapper(base_model(c.v['kind']), jnp.array(bins))
  pre = c.prefix + (c.dim('N'),)
  tr = trajectory(c, pre + (1,))
  d = c.leaf('a', pre + (1,), i32, where=lambda v, *ix: And(0 <= v, v < tot), gen=lambda r, s: r.integers(0, tot, s))
  valid = c.leaf('a_valid', pre + (1,), b_)
  sp = model.action_spec()
  out, ref = c.call(lambda t, a, v: (w.compute_update(datatypes.Action(data=a, valid=v), t), None), tr, d, valid)
  # the continuous model on the grid action (the model's own contract is P08/P09)
  lo, hi = np.asarray(sp.minimum, f32), np.asarray(sp.maximum, f32)

  def grid(t, a, v):
    idx = []
    for k in range(n):
      q = (a[..., 0] // st[k]) % (bins[k] + 1)
      idx.append(jnp.float32(lo[k]) + q.astype(jnp.float32) * jnp.float32((hi[k] - lo[k]) / bins[k]))
    return model.compute_update(datatypes.Action(data=jnp.stack(idx, -1), valid=v), t)
  ref = c.call(grid, tr, d, valid, warm=False)
  for f in XYV:
    c.ensure(f, pre, lambda *ix: (near_angle if f == 'yaw' else near)(out[f][ix + (0,)], ref[f][ix + (0,)]))
  c.ensure('valid', pre, lambda *ix: Iff(out.valid[ix + (0,)], And(valid[ix + (0,)], tr.valid[ix + (0,)])))


@contract('P12', 'wrapper.inverse', 'DiscreteActionSpaceWrapper.inverse', dims=dict(N=(1, 4), T=(2, 5), B=(1, 2)), prefixes=[(), ('B',)], variants=WV)
def wrap_inverse(c):
  bins = c.v['bins']
  st, tot = strides(bins)
  n = len(bins)
  model = base_model(c.v['kind'])
  w = dynamics.DiscreteActionSpaceWrapper(base_model(c.v['kind']), jnp.array(bins))
  pre = c.prefix + (c.dim('N'),)
  tr = trajectory(c, pre + (c.dim('T'),))
  md = metadata(c, pre)
  ts = timestep(c, (), c.dim('T'))
  out = c.call(lambda t, m, k: w.inverse(t, m, k), tr, md, ts)
  cont = c.call(lambda t, m, k: model.inverse(t, m, k), tr, md, ts, warm=False)
  sp = model.action_spec()
  lo, hi = [fl(float(v)) for v in sp.minimum], [fl(float(v)) for v in sp.maximum]
  c.ensure('valid', pre, lambda *ix: Iff(out.valid[ix + (0,)], cont.valid[ix + (0,)]))
  c.ensure('in_range', pre, lambda *ix: And(0 <= out.data[ix + (0,)], out.data[ix + (0,)] < tot))
  for k in range(n):
    def p(*ix):
      d = digit(out.data[ix + (0,)], bins, k)
      v = clip(cont.data[ix + (k,)], lo[k], hi[k])
      return Implies(cont.valid[ix + (0,)], absv((v - lo[k]) * bins[k] - tofloat(d) * (hi[k] - lo[k])) <= (hi[k] - lo[k]) * (0.5 if not c.conc else 0.5005))
    c.ensure(f'nearest.{k}', pre, p)


@contract('P12', 'wrapper.action_spec', 'DiscreteActionSpaceWrapper.action_spec', variants=WV)
def wrap_spec(c):
  w = dynamics.DiscreteActionSpaceWrapper(base_model(c.v['kind']), jnp.array(c.v['bins']))
  s = w.action_spec()
  tot = strides(c.v['bins'])[1]
  c.ensure_fact('spec', tuple(s.shape) == (1,) and np.all(np.asarray(s.minimum) == 0) and np.all(np.asarray(s.maximum) == tot - 1) and np.issubdtype(s.dtype, np.integer))
