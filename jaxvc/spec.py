"""The specification language: one text, two readings.

Symbolic: values are z3 terms over unbounded index variables.
Concrete: values are numpy arrays (vectorised over every index) - used to replay
counterexamples on the real code and to cross-check the contracts at run time.
"""
from __future__ import annotations
from fractions import Fraction
import numpy as np
import z3
from . import terms as T
from . import sem
from .terms import F

TOL = 2e-3


class Conc:
  """state of the concrete reading"""
  amb = None
  tol = TOL


def _amb(m):
  if Conc.amb is None:
    Conc.amb = m
  else:
    Conc.amb = Conc.amb | m


def isconc(x):
  return isinstance(x, (np.ndarray, np.generic))


class V:
  """A specification value."""
  __slots__ = ('t',)
  __array_priority__ = 1000

  def __init__(self, t):
    self.t = t

  def __repr__(self):
    return f'V({self.t})'

  # arithmetic
  def __add__(self, o): return _ar('add', self, o)
  def __radd__(self, o): return _ar('add', o, self)
  def __sub__(self, o): return _ar('sub', self, o)
  def __rsub__(self, o): return _ar('sub', o, self)
  def __mul__(self, o): return _ar('mul', self, o)
  def __rmul__(self, o): return _ar('mul', o, self)
  def __truediv__(self, o): return _ar('div', self, o)
  def __rtruediv__(self, o): return _ar('div', o, self)
  def __neg__(self): return _ar('sub', 0, self)
  # comparison
  def __lt__(self, o): return _cmp('lt', self, o)
  def __le__(self, o): return _cmp('le', self, o)
  def __gt__(self, o): return _cmp('lt', o, self)
  def __ge__(self, o): return _cmp('le', o, self)
  def __eq__(self, o): return _cmp('eq', self, o)
  def __ne__(self, o): return Not(_cmp('eq', self, o))
  __hash__ = None
  # logic
  def __and__(self, o): return And(self, o)
  def __rand__(self, o): return And(o, self)
  def __or__(self, o): return Or(self, o)
  def __ror__(self, o): return Or(o, self)
  def __invert__(self): return Not(self)
  def __bool__(self):
    t = self.t
    if isinstance(t, bool):
      return t
    if isconc(t) and t.ndim == 0:
      return bool(t)
    raise TypeError('symbolic truth value in a specification')


def V_(x):
  return x if isinstance(x, V) else V(x)


def raw(x):
  return x.t if isinstance(x, V) else x


def _pair(a, b):
  a, b = raw(a), raw(b)
  if isconc(a) or isconc(b):
    return 'c', a, b
  # symbolic / python numbers
  if isinstance(a, F) or isinstance(b, F) or isinstance(a, (float, Fraction)) or isinstance(b, (float, Fraction)):
    return 'f', tof(a), tof(b)
  return 'i', a, b


def tof(a):
  if isinstance(a, F):
    return a
  if isinstance(a, Fraction):
    return F(a)
  if isinstance(a, bool):
    return F(Fraction(int(a)))
  if isinstance(a, int):
    return F(Fraction(a))
  if isinstance(a, float):
    return T.flit(a)
  if isinstance(a, z3.BoolRef):
    return F(T.rite(a, Fraction(1), Fraction(0)))
  if isinstance(a, z3.ArithRef):
    return F(z3.ToReal(a)) if a.is_int() else F(a)
  raise TypeError(a)


def cnum(a):
  if isinstance(a, Fraction):
    return np.float64(float(a))
  if isconc(a):
    if a.dtype == bool:
      return a.astype(np.int64)
    return a
  return np.asarray(a)


_FA = dict(add=T.fadd, sub=T.fsub, mul=T.fmul, div=T.fdiv)
_IA = dict(add=T.iadd, sub=T.isub, mul=T.imul)


def toi(a):
  if isinstance(a, bool):
    return int(a)
  if isinstance(a, z3.BoolRef):
    return T.iite(a, 1, 0)
  return a


def _ar(op, a, b):
  m, a, b = _pair(a, b)
  if m == 'c':
    a, b = cnum(a), cnum(b)
    with np.errstate(all='ignore'):
      if op == 'add': return V(np.asarray(a + b))
      if op == 'sub': return V(np.asarray(a - b))
      if op == 'mul': return V(np.asarray(a * b))
      return V(np.asarray(np.true_divide(a, b)))
  if m == 'f' or op == 'div':
    return V(_FA[op](tof(a), tof(b)))
  return V(_IA[op](toi(a), toi(b)))


def _cmp(op, a, b):
  m, a, b = _pair(a, b)
  if m == 'c':
    a, b = cnum(a), cnum(b)
    if a.dtype.kind == 'f' or b.dtype.kind == 'f':
      with np.errstate(all='ignore'):
        d = np.abs(a - b)
        s = Conc.tol * np.minimum(1 + np.abs(a) + np.abs(b), 1e6)
        _amb(np.asarray((d > 0) & (d < s)))
    r = {'lt': np.less, 'le': np.less_equal, 'eq': np.equal}[op](a, b)
    return V(np.asarray(r))
  isb = lambda x: isinstance(x, (bool, z3.BoolRef))
  if m == 'f':
    return V({'lt': T.flt, 'le': T.fle, 'eq': T.feq}[op](a, b))
  if isb(a) and isb(b):
    if op == 'eq':
      return V(T.beq(a, b))
  return V({'lt': T.lt, 'le': T.le, 'eq': T.eq}[op](toi(a), toi(b)))


def near(a, b, tol=None):
  """Equality of results: exact over the reals, up to rounding concretely. NaN equals NaN."""
  m, x, y = _pair(a, b)
  if m == 'c':
    x, y = cnum(x), cnum(y)
    if x.dtype.kind != 'f' and y.dtype.kind != 'f':
      return V(np.asarray(x == y))
    tol = tol or Conc.tol
    with np.errstate(all='ignore'):
      ok = (np.abs(x - y) <= tol * (1 + np.abs(y))) | (x == y) | (np.isnan(x) & np.isnan(y))
    return V(np.asarray(ok))
  if m == 'f':
    return V(T.fsame(x, y))
  return V(T.vsame(x, y))


same = near


def And(*xs):
  xs = [raw(x) for x in xs]
  if any(isconc(x) for x in xs):
    r = True
    for x in xs:
      r = np.logical_and(r, x)
    return V(np.asarray(r))
  return V(T.And(*xs))


def Or(*xs):
  xs = [raw(x) for x in xs]
  if any(isconc(x) for x in xs):
    r = False
    for x in xs:
      r = np.logical_or(r, x)
    return V(np.asarray(r))
  return V(T.Or(*xs))


def Not(x):
  x = raw(x)
  if isconc(x):
    return V(np.asarray(np.logical_not(x)))
  return V(T.Not(x))


def Implies(a, b):
  return Or(Not(a), b)


def Iff(a, b):
  a, b = raw(a), raw(b)
  if isconc(a) or isconc(b):
    return V(np.asarray(np.equal(a, b)))
  return V(T.beq(a, b))


def ite(c, a, b):
  c, a, b = raw(c), raw(a), raw(b)
  if isconc(c) or isconc(a) or isconc(b):
    return V(np.asarray(np.where(c, cnumk(a), cnumk(b))))
  isb = lambda x: isinstance(x, (bool, z3.BoolRef))
  if isinstance(a, (F, float, Fraction)) or isinstance(b, (F, float, Fraction)):
    return V(T.fite(c, tof(a), tof(b)))
  if isb(a) and isb(b):
    return V(T.bite(c, a, b))
  return V(T.iite(c, toi(a), toi(b)))


def cnumk(a):
  return np.float64(float(a)) if isinstance(a, Fraction) else a


def _f1(sym, con):
  def f(x):
    x = raw(x)
    if isconc(x):
      with np.errstate(all='ignore'):
        return V(np.asarray(con(x)))
    return V(sym(tof(x)))
  return f


sin = _f1(T.fsin, np.sin)
cos = _f1(T.fcos, np.cos)
sqrt = _f1(T.fsqrt, np.sqrt)
exp = _f1(lambda a: T.uf1('exp', a), np.exp)
tan = _f1(lambda a: T.uf1('tan', a), np.tan)
floor = _f1(T.ffloor, np.floor)
round_even = _f1(T.fround_even, np.rint)
isfinite = _f1(lambda a: a.isfin(), np.isfinite)
isnan = _f1(lambda a: a.nan, np.isnan)
tofloat = _f1(lambda a: a, lambda a: a.astype(np.float64))


def toint(x):
  x = raw(x)
  if isconc(x):
    return V(np.trunc(np.nan_to_num(x)).astype(np.int64))
  return V(T.ftrunc_int(x)) if isinstance(x, F) else V(toi(x))


def absv(x):
  x = raw(x)
  if isconc(x):
    return V(np.abs(x))
  if isinstance(x, F):
    return V(T.fabs(x))
  return V(T.iite(T.le(0, x), x, T.isub(0, x)))


def atan2(y, x):
  m, a, b = _pair(y, x)
  if m == 'c':
    return V(np.asarray(np.arctan2(cnum(a), cnum(b))))
  return V(T.fatan2(tof(a), tof(b)))


def minv(a, b):
  m, x, y = _pair(a, b)
  if m == 'c':
    return V(np.asarray(np.minimum(cnum(x), cnum(y))))
  if m == 'f':
    return V(T.fmin(x, y))
  return V(T.imin(x, y))


def maxv(a, b):
  m, x, y = _pair(a, b)
  if m == 'c':
    return V(np.asarray(np.maximum(cnum(x), cnum(y))))
  if m == 'f':
    return V(T.fmax(x, y))
  return V(T.imax(x, y))


def clip(x, lo, hi):
  return minv(maxv(x, lo), hi)


def fl(x):
  """float constant"""
  return V(T.flit(x)) if not CONC[0] else V(np.float64(np.float32(x)))


CONC = [False]


def pi(mult=1):
  if CONC[0]:
    return V(np.float64(np.pi * mult))
  return V(F(T.rmul(Fraction(mult), T.PI)))


INF = lambda: V(np.float64(np.inf)) if CONC[0] else V(T.PINF)
NINF = lambda: V(np.float64(-np.inf)) if CONC[0] else V(T.NINF)
NAN = lambda: V(np.float64(np.nan)) if CONC[0] else V(T.NAN)


# --------------------------------------------------------------- reductions
def _vk(v):
  t = v.t
  if isinstance(t, F):
    return 'f'
  if isinstance(t, (bool, z3.BoolRef)):
    return 'b'
  return 'i'


def _red(kind, size, f):
  size = raw(size)
  if CONC[0]:
    n = int(size)
    vals = [raw(f(V(np.asarray(k)))) for k in range(n)]
    if kind == 'or':
      r = False
      for v in vals: r = np.logical_or(r, v)
      return V(np.asarray(r))
    if kind == 'and':
      r = True
      for v in vals: r = np.logical_and(r, v)
      return V(np.asarray(r))
    if kind == 'sum':
      r = np.asarray(0)
      for v in vals: r = r + cnum(v)
      return V(np.asarray(r))
    if not vals:
      return V(np.asarray(-np.inf if kind == 'max' else np.inf))
    vals = np.stack(np.broadcast_arrays(*[cnum(v) for v in vals]))
    if kind in ('max', 'min'):
      return V(getattr(vals, kind)(axis=0))
    r = getattr(vals, kind)(axis=0)
    if vals.dtype.kind == 'f' and n > 1:
      best = np.take_along_axis(vals, r[None], 0)
      with np.errstate(all='ignore'):
        d = np.abs(vals - best)
        _amb(np.any((d > 0) & (d < Conc.tol * (1 + np.abs(best))), axis=0))
    return V(r)
  body = lambda k: raw(f(V(k)))
  if isinstance(size, int) and size <= sem.UNROLL:
    vals = [body(k) for k in range(size)]
    vals = [tof(v) if isinstance(v, (float, Fraction)) else v for v in vals]
    vk = _vk(V(vals[0])) if vals else ('b' if kind in ('or', 'and') else 'i')
    return V(sem.fold(kind, vals, vk))
  probe = body(z3.Int(T.ctx().fresh('p')))
  vk = _vk(V(probe))
  return V(sem.make_red(kind, size, body, vk))


def exists(size, f): return _red('or', size, f)
def forall(size, f): return _red('and', size, f)
def sum_(size, f): return _red('sum', size, f)
def count(size, f): return _red('sum', size, lambda k: ite(f(k), 1, 0))
def max_(size, f): return _red('max', size, f)
def min_(size, f): return _red('min', size, f)
def argmax(size, f): return _red('argmax', size, f)
def argmin(size, f): return _red('argmin', size, f)


def ranked(size, k, f):
  """positions of the k smallest of f(0..size-1) in increasing order, ties by position: a function of the rank"""
  size, k = raw(size), raw(k)
  if CONC[0]:
    vals = np.stack(np.broadcast_arrays(*[cnum(raw(f(V(np.asarray(q))))) for q in range(int(size))]))
    order = np.argsort(vals, axis=0, kind='stable')
    sv = np.take_along_axis(vals, order, 0)
    with np.errstate(all='ignore'):
      d = np.abs(sv[1:] - sv[:-1])
      close = np.isfinite(d) & (d > 0) & (d < Conc.tol * (1 + np.abs(sv[:-1])))
    if len(sv) > 1:
      _amb(np.any(close, axis=0))

    def at(j):
      j = np.asarray(raw(j))
      sh = np.broadcast_shapes(j.shape, order.shape[1:])
      o = np.broadcast_to(order.reshape(order.shape[:1] + (1,) * (len(sh) - order.ndim + 1) + order.shape[1:]), order.shape[:1] + sh)
      return V(np.take_along_axis(o, np.broadcast_to(j, sh)[None], 0)[0])
    return at
  tk = sem.shared_topk(size, k, lambda q: T.fneg(tof(raw(f(V(q))))))
  return lambda j: V(tk.pos(raw(j)))


# --------------------------------------------------------------- arrays
class A:
  """array of specification values (symbolic Arr or concrete numpy)"""

  def __init__(self, x):
    self.x = x
    self.shape = tuple(x.shape)
    self.dtype = x.dtype

  @property
  def ndim(self):
    return len(self.shape)

  def __getitem__(self, ix):
    if not isinstance(ix, tuple):
      ix = (ix,)
    ix = tuple(raw(i) for i in ix)
    assert len(ix) == len(self.shape), (len(ix), self.shape)
    if isinstance(self.x, np.ndarray):
      if not ix:
        v = self.x
      else:
        if any(d == 0 for d in self.shape):
          return V(np.zeros(np.broadcast_shapes(*[np.shape(i) for i in ix]), self.x.dtype))
        ii = [np.clip(np.asarray(i), 0, d - 1) for i, d in zip(ix, self.shape)]
        v = self.x[tuple(ii)]
      return V(np.asarray(v))
    return V(self.x.at(*ix))

  def __repr__(self):
    return f'A{self.shape}'


def mod(a, b):
  """modulus with the sign of the divisor"""
  m, x, y = _pair(a, b)
  if m == 'c':
    with np.errstate(all='ignore'):
      return V(np.asarray(np.mod(cnum(x), cnum(y))))
  if m == 'f':
    return V(T.fmod_floor(x, y))
  return V(T.I(x) % T.I(y))


def near_angle(a, b, tol=None):
  """equal results for angles already wrapped (concretely: equal up to a full turn)"""
  m, x, y = _pair(a, b)
  if m == 'c':
    d = np.mod(cnum(x) - cnum(y) + np.pi, 2 * np.pi) - np.pi
    with np.errstate(all='ignore'):
      sc = 1 + np.minimum(np.abs(cnum(x)) + np.abs(cnum(y)), 100)
      return V(np.asarray((np.abs(d) <= (tol or Conc.tol) * sc) | (np.isnan(x) & np.isnan(y))))
  return near(a, b)


def same_angle_axiom(a, b, k):
  """trusted fact of trigonometry: equal sine and cosine means equal up to k full turns (k fresh)"""
  if CONC[0]:
    return True
  return V(T.Implies(raw(And(sin(a) == sin(b), cos(a) == cos(b))), raw(V_(a) - V_(b)).r == z3.ToReal(raw(k)) * 2 * T.PI))


# ---- unknown functions and random keys, as the specification sees them
def uf(name, dtype, *args):
  """the unknown elementwise function sem.elementwise_op(name, dtype, ...) applied to specification values"""
  if CONC[0]:
    xs = [cnum(raw(V_(a))) for a in args]
    return V(np.asarray(sem.ew_concrete(name, dtype, *xs)))
  xs = [raw(V_(a)) for a in args]
  return V(sem.ew_apply(name, dtype, [x if isinstance(x, F) or isinstance(x, (bool, int)) or z3.is_expr(x) else T.F(x) for x in xs]))


def key_split(key, n, j):
  """half j of jax.random.split(key, n), on pairs of words"""
  if CONC[0]:
    import jax
    a, b = [cnum(raw(V_(x))) for x in key]
    sh = np.broadcast(a, b).shape
    out = np.zeros(sh + (2,), np.int64)
    for ix in np.ndindex(*sh):
      out[ix] = np.asarray(jax.random.split(jax.numpy.asarray([a[ix] if sh else a, b[ix] if sh else b], dtype=np.uint32), n))[j]
    return V(out[..., 0]), V(out[..., 1])
  w = sem._uf('wrap', 2)(*[T.I(raw(x)) for x in key])
  s = sem._uf('split', 3)(w, T.I(n), T.I(j))
  return tuple(V(sem._uf('unwrap', 2)(s, T.I(i))) for i in (0, 1))
