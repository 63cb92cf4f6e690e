"""Structured-array operations (P15)."""
from .common import *
import jax
import jax.numpy as jnp
from waymax.datatypes import operations as O
from waymax.datatypes import array as _arr

P3 = [(), ('B',)]
DN = dict(N=(1, 4), T=(1, 5), B=(1, 3))


def tree(c, sh, tag='', extra=False):
  """a dataclass with a validity flag, float and int leaves of one shape"""
  d = dict(f=c.leaf(tag + 'f', sh, f32), i=c.leaf(tag + 'i', sh, i32), b=c.leaf(tag + 'b', sh, b_))
  if extra:
    d['g'] = c.leaf(tag + 'g', sh + (2,), f32)
  return d


def rank(k):
  return 1 if k == 'g' else 0


def each(c, name, o, want, sh, mk):
  """o[k][ix] is want(k)(ix) for every leaf k, at every index of shape sh"""
  for k in o:
    ex = (2,) * rank(k)
    c.ensure_shape(f'{name}.shape.{k}', o[k], sh + ex)
    c.ensure(f'{name}.{k}', sh + ex, lambda *ix: same(o[k][ix], mk(k, ix)))


@contract('P15', 'update_by_mask', 'update_by_mask', dims=DN, prefixes=P3, variants=[dict(m=2), dict(m=1)])
def upd_mask(c):
  sh = c.prefix + (c.dim('N'), c.dim('T'))
  a, u = tree(c, sh, 'a'), tree(c, sh, 'u')
  ms = sh if c.v['m'] == 2 else sh[:-1] + (1,)
  m = c.leaf('mask', ms, b_)
  o = c.call(lambda a, u, m: O.update_by_mask(a, u, m), a, u, m)
  at = lambda ix: m[ix] if c.v['m'] == 2 else m[ix[:-1] + (0,)]
  for k in a:
    c.ensure_fact(f'dtype.{k}', o[k].dtype == a[k].dtype)
    c.ensure_shape(f'shape.{k}', o[k], sh)
    c.ensure(f'set.{k}', sh, lambda *ix: Implies(at(ix), same(o[k][ix], u[k][ix])))
    c.ensure(f'kept.{k}', sh, lambda *ix: Implies(Not(at(ix)), same(o[k][ix], a[k][ix])))


def clampix(i, hi):
  return minv(maxv(i, 0), hi)


@contract('P15', 'dynamic_slice', 'dynamic_slice', dims=dict(N=(3, 5), T=(3, 6), B=(2, 4)), prefixes=P3,
          variants=[dict(ax=0, start='s'), dict(ax=-1, start='s'), dict(ax=0, start='b'), dict(ax=1, start='b')])
def dslice(c):
  """start: one for all, or one per batch element; the axis counts within a batch element then"""
  bat = c.v['start'] == 'b'
  pre = c.prefix
  if bat and not pre:
    sh, axg = (c.dim('N'), c.dim('T')), c.v['ax']
  elif bat:
    sh, axg = pre + (c.dim('N'), c.dim('T')), c.v['ax'] + 1
  else:
    sh = pre + (c.dim('N'), c.dim('T'))
    axg = c.v['ax'] % len(sh)
  a = tree(c, sh)
  st = c.leaf('start', pre if bat else (), i32, gen=lambda r, s: r.integers(-3, 8, s), where=lambda v, *ix: And(-100 <= v, v <= 10000))
  K = 2
  ax = c.v['ax']
  o = c.call(lambda a, s: O.dynamic_slice(a, s, K, axis=ax), a, st)
  osh = sh[:axg] + (K,) + sh[axg + 1:]
  n = sh[axg]

  def mk(k, ix):
    s = st[ix[:len(st.shape)]]
    s = ite(s < 0, s + n, s)
    s = clampix(s, n - K)
    return a[k][ix[:axg] + (s + ix[axg],) + ix[axg + 1:]]
  each(c, 'slice', o, None, osh, mk)


@contract('P15', 'dynamic_index', 'dynamic_index', dims=dict(N=(1, 4), T=(1, 5), B=(1, 3)), prefixes=P3,
          variants=[dict(ax=0, start='s', keep=True), dict(ax=-1, start='s', keep=False), dict(ax=0, start='b', keep=False), dict(ax=1, start='b', keep=True), dict(ax=-1, start='b', keep=False)])
def dindex(c):
  bat = c.v['start'] == 'b'
  pre = c.prefix
  sh = pre + (c.dim('N'), c.dim('T'))
  lo = len(pre) if bat else 0
  axg = lo + c.v['ax'] if c.v['ax'] >= 0 else len(sh) - 1
  a = tree(c, sh)
  n = sh[axg]
  st = c.leaf('index', pre if bat else (), i32, gen=lambda r, s: r.integers(-3, 8, s), where=lambda v, *ix: And(-100 <= v, v <= 10000))
  ax, keep = c.v['ax'], c.v['keep']
  o = c.call(lambda a, s: O.dynamic_index(a, s, axis=ax, keepdims=keep), a, st)
  osh = sh[:axg] + ((1,) if keep else ()) + sh[axg + 1:]

  def mk(k, ix):
    s = st[ix[:len(st.shape)]]
    s = clampix(ite(s < 0, s + n, s), n - 1)
    return a[k][ix[:axg] + (s,) + ix[axg + (1 if keep else 0):]]
  each(c, 'index', o, None, osh, mk)


@contract('P15', 'update_by_slice_in_dim', 'update_by_slice_in_dim / dynamic_update_slice_in_dim', dims=dict(N=(1, 3), T=(3, 6), U=(2, 4), B=(1, 3)), prefixes=P3,
          variants=[dict(start=s, size=z, us=u) for s in 'sb' for z, u in ((None, None), (2, None), (2, 's'), (2, 'same'))])
def uslice(c):
  """slice of size 2 of the updates written at the start index of the inputs, last axis"""
  bat = c.v['start'] == 'b'
  pre = c.prefix
  sh = pre + (c.dim('N'), c.dim('T'))
  z = c.v['size']
  U = 2 if z is None else c.dim('U')
  a = tree(c, sh, 'a')
  u = tree(c, pre + (c.dim('N'), U), 'u')
  ish = pre if bat else ()
  w = lambda v, *ix: And(-100 <= v, v <= 10000)
  g = lambda r, s: r.integers(-2, 8, s)
  st = c.leaf('start', ish, i32, where=w, gen=g)
  us = {None: None, 's': c.leaf('ustart', (), i32, where=w, gen=g), 'same': c.leaf('ustart', ish, i32, where=w, gen=g)}[c.v['us']] if c.v['us'] else None
  ax = -1
  if us is None:
    o = c.call(lambda a, u, s: O.update_by_slice_in_dim(a, u, s, slice_size=z, axis=ax), a, u, st)
  else:
    o = c.call(lambda a, u, s, t: O.update_by_slice_in_dim(a, u, s, t, slice_size=z, axis=ax), a, u, st, us)
  n = sh[-1]

  def start(x, n, ix, k):
    s = x[ix[:len(x.shape)]]
    return clampix(ite(s < 0, s + n, s), n - k)

  def mk(k, ix):
    s = start(st, n, ix, 2)
    off = ix[-1] - s
    t = 0 if z is None else start(st if us is None else us, U, ix, 2)
    return s, off, u[k][ix[:-1] + (clampix(off, 1) + t,)]
  for k in a:
    c.ensure_fact(f'dtype.{k}', o[k].dtype == a[k].dtype)
    c.ensure_shape(f'shape.{k}', o[k], sh)
    c.ensure(f'written.{k}', sh, lambda *ix: (lambda s, off, v: Implies(And(off >= 0, off < 2), same(o[k][ix], v)))(*mk(k, ix)))
    c.ensure(f'kept.{k}', sh, lambda *ix: (lambda s, off, v: Implies(Or(off < 0, off >= 2), same(o[k][ix], a[k][ix])))(*mk(k, ix)))


@contract('P15', 'dynamic_update_slice_in_dim', 'dynamic_update_slice_in_dim', dims=dict(N=(2, 3), T=(1, 4), B=(1, 3)), prefixes=P3)
def duslice(c):
  sh = c.prefix + (c.dim('N'), c.dim('T'))
  a, u = tree(c, sh, 'a'), tree(c, c.prefix + (2, c.dim('T')), 'u')
  st = c.leaf('start', c.prefix, i32, gen=lambda r, s: r.integers(0, 4, s), where=lambda v, *ix: And(0 <= v, v <= 10000))
  o = c.call(lambda a, u, s: O.dynamic_update_slice_in_dim(a, u, s, 0), a, u, st)
  k0 = len(c.prefix)
  for k in a:
    def want(ix):
      s = clampix(st[ix[:k0]], sh[k0] - 2)
      off = ix[k0] - s
      return And(Implies(And(off >= 0, off < 2), same(o[k][ix], u[k][ix[:k0] + (clampix(off, 1),) + ix[k0 + 1:]])),
                 Implies(Or(off < 0, off >= 2), same(o[k][ix], a[k][ix])))
    c.ensure(f'updated.{k}', sh, lambda *ix: want(ix))


@contract('P15', 'select_by_onehot', 'select_by_onehot', dims=dict(N=(1, 5), T=(1, 3), B=(1, 3)), prefixes=P3, variants=[dict(k=k, x=x) for k in (True, False) for x in (True, False)])
def onehot(c):
  N = c.dim('N')
  pre = c.prefix
  tail = (c.dim('T'),) if c.v['x'] else ()
  a = tree(c, pre + (N,) + tail, extra=True)
  pos = c.leaf('pos', pre, i32, where=lambda v, *ix: And(0 <= v, v < N), gen=lambda r, s: r.integers(0, int(S.raw(N)), s))
  n = c.pydim('N')
  keep = c.v['k']
  o = c.call(lambda a, p: O.select_by_onehot(a, jnp.arange(n) == p[..., None], keepdims=keep), a, pos)
  k0 = len(pre)
  osh = pre + ((1,) if keep else ()) + tail

  def mk(k, ix):
    p = pos[ix[:k0]]
    return a[k][ix[:k0] + (p,) + ix[k0 + (1 if keep else 0):]]
  for k in o:
    c.ensure_fact(f'dtype.{k}', o[k].dtype == a[k].dtype)
  c.hint(*([pos[()]] if not pre else []))
  for k in o:
    ex = (2,) * rank(k)
    c.ensure_shape(f'shape.{k}', o[k], osh + ex)
    c.ensure(f'selected.{k}', osh + ex, lambda *ix: same(o[k][ix], mk(k, ix)), hint=lambda *ix: [pos[ix[:k0]]] if k0 else [])


@contract('P15', 'make_invalid_data', 'make_invalid_data', dims=DN, prefixes=P3)
def invalid(c):
  a = tree(c, c.prefix + (c.dim('N'), c.dim('T')))
  o = c.call(lambda a: jax.tree_util.tree_map(O.make_invalid_data, a), a)
  for k in a:
    c.ensure_fact(f'dtype.{k}', o[k].dtype == a[k].dtype)
    c.ensure_shape(f'shape.{k}', o[k], a[k].shape)
    c.ensure(k, a[k].shape, lambda *ix: Not(o[k][ix]) if k == 'b' else o[k][ix] == -1)


@contract('P15', 'masked_mean', 'masked_mean', dims=DN, prefixes=[()], variants=[dict(ax=-1), dict(ax=0), dict(ax=1)])
def mmean(c):
  N, T = c.dim('N'), c.dim('T')
  x = c.leaf('x', (N, T), f32)
  m = c.leaf('valid', (N, T), b_)
  ax = c.v['ax']
  o = c.call(lambda x, m: O.masked_mean(x, m, axis=ax, invalid_value=-3.0), x, m)
  c.ensure_shape('shape', o, (N, T))
  # the reduced axis, and the entry of row/column j at position q
  n, at = (N, lambda a, i, j, q: a[q, j]) if ax == 0 else (T, lambda a, i, j, q: a[i, q])
  cnt = lambda i, j: sum_(n, lambda q: ite(at(m, i, j, q), 1.0, 0.0))
  tot = lambda i, j: sum_(n, lambda q: ite(at(m, i, j, q), at(x, i, j, q), 0.0))
  c.ensure('none_valid', (N, T), lambda i, j: Implies(Not(exists(n, lambda q: at(m, i, j, q))), near(o[i, j], -3.0)))
  c.ensure('mean', (N, T), lambda i, j: Implies(at(m, i, j, j if ax else i), near(o[i, j] * cnt(i, j), tot(i, j), tol=1e-2)))
  def some(i, j):
    return exists(n, lambda q: at(m, i, j, q))
  c.ensure('mean_any', (N, T), lambda i, j: Implies(some(i, j), near(o[i, j] * cnt(i, j), tot(i, j), tol=1e-2)))


@contract('P15', 'masked_value', 'MaskedArray.masked_value', dims=DN, prefixes=P3, variants=[dict(d='f'), dict(d='i')])
def mvalue(c):
  sh = c.prefix + (c.dim('N'),)
  v = c.leaf('value', sh, f32 if c.v['d'] == 'f' else i32)
  m = c.leaf('valid', sh, b_)
  o, d = c.call(lambda v, m: ((a := _arr.MaskedArray.create_and_validate(v, m)).masked_value(7), a.masked_value()), v, m)
  c.ensure_fact('dtype', o.dtype == v.dtype and d.dtype == v.dtype)
  c.ensure('filled', sh, lambda *ix: near(o[ix], ite(m[ix], v[ix], 7)))
  c.ensure('zero', sh, lambda *ix: near(d[ix], ite(m[ix], v[ix], 0)))


@contract('P15', 'compare_all_leaf_nodes', 'compare_all_leaf_nodes / __eq__', dims=DN, prefixes=P3, sym=False, eager=True, bounded_note='bounded: the result is a Python bool, not traceable')
def cmp(c):
  sh = c.prefix + (c.dim('N'), c.dim('T'))
  t = trajectory(c, sh)
  which = c.leaf('which', (), i32, gen=lambda r, s: r.integers(0, len(all_fields(t)) + 1, s))
  at = c.leaf('at', (), f32, gen=lambda r, s: r.random(s))

  def f(t, w, q):
    import dataclasses
    fs = sorted(all_fields(t))
    w = int(w)
    u = t
    if w < len(fs):
      x = np.array(t[fs[w]])
      i = np.unravel_index(int(float(q) * x.size) % x.size, x.shape)
      x[i] = (not x[i]) if x.dtype == bool else x[i] + 1
      u = t.replace(**{fs[w]: jnp.asarray(x)})
    close = O.compare_all_leaf_nodes(t, u, lambda a, b: jnp.allclose(a * 1.0, b * 1.0, atol=1.5))
    return jnp.array([bool(t == u), bool(u == t), bool(t == t), w >= len(fs), bool(O.compare_all_leaf_nodes(t, 3)), bool(close)])
  o = c.call(f, t, which, at)
  c.ensure('equal_iff_same', (), lambda: And(Iff(o[0], o[3]), Iff(o[1], o[3]), o[2], Not(o[4]), o[5]))
