"""Symbolic scalar values.

int   : python int | z3 Int
bool  : python bool | z3 Bool
float : F(r, nan, pinf, ninf)   r: Fraction | z3 Real, flags: python bool | z3 Bool
        (idealised float: extended reals, no rounding; r is meaningless when a flag is set)
key   : opaque dtype values are python int | z3 Int as well (tokens)
"""
from __future__ import annotations
import math
from fractions import Fraction
import numpy as np
import z3

Ar = z3.ArithRef


class Unsupported(Exception):
  """The construct is outside the verifier's reach."""


_IDS = {}


def _get_id(self):
  """ast ids serve as keys everywhere: an ast whose id was taken is kept alive, so that ids are never reused"""
  i = z3.Z3_get_ast_id(self.ctx_ref(), self.as_ast())
  if i not in _IDS:
    _IDS[i] = self
  return i


for _c in (z3.AstRef, z3.ExprRef, z3.SortRef, z3.FuncDeclRef, z3.QuantifierRef):
  if 'get_id' in _c.__dict__:
    _c.get_id = _get_id


# --------------------------------------------------------------- context
class Ctx:
  """One verification context: fresh names and keyed axiom instances."""

  def __init__(self, numeric=False):
    self.n = 0
    self.facts = {}      # key ast id -> list of facts
    self.keep = []       # keep asts alive so ids stay unique
    self.reds = {}       # key ast id -> Red
    self.memo = {}
    self.numeric = numeric
    self.global_facts = []
    self.trig = {}       # arg id -> (arg, s, c)
    self.hyps = None     # preconditions in force (shared with the contract context)
    self.dsolver = None
    self.decided = {}
    self.ndecide = 0

  def fresh(self, base):
    self.n += 1
    return f'{base}!{self.n}'

  def fact(self, key, f):
    if f is True:
      return
    if f is False:
      f = z3.BoolVal(False)
    self.keep.append(key)
    self.facts.setdefault(key.get_id(), []).append(f)


CTX = Ctx()


def set_ctx(c):
  global CTX
  CTX = c
  return c


def ctx():
  return CTX


# --------------------------------------------------------------- decided conditions
def _int_only(c, limit=80):
  """subterms of a condition over integers only, or None"""
  out, stack, seen = [], [c], set()
  while stack:
    x = stack.pop()
    if x.get_id() in seen:
      continue
    seen.add(x.get_id())
    if len(seen) > limit or z3.is_quantifier(x) or z3.is_real(x):
      return None
    out.append(x)
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and z3.is_bool(x):
      return None
    stack.extend(x.children())
  return out


def decide(c):
  """c itself, or True/False when the preconditions settle it (integer conditions only)"""
  C = CTX
  if C.hyps is None or C.numeric or not z3.is_expr(c):
    return c
  k = c.get_id()
  r = C.decided.get(k)
  if r is not None:
    return r[1]
  C.decided[k] = (c, c)
  n = c.get_id()
  if z3.is_not(c):
    d = decide(c.arg(0))
    res = Not(d) if isinstance(d, bool) else c
    C.decided[k] = (c, res)
    return res
  sub = _int_only(c)
  if sub is None or C.ndecide > 4000:
    return c
  C.ndecide += 1
  if C.dsolver is None:
    C.dsolver = [z3.SimpleSolver(), 0, set()]
    C.dsolver[0].set('timeout', 100)
  s, nh, got = C.dsolver
  while nh < len(C.hyps):
    s.add(B(C.hyps[nh]))
    nh += 1
  C.dsolver[1] = nh
  for x in sub:
    i = x.get_id()
    if i in got:
      continue
    fs = C.facts.get(i)
    if fs:
      got.add(i)
      for f in fs:
        if _int_only(B(f)) is not None:
          s.add(B(f))
  res = c
  s.push()
  s.add(z3.Not(c))
  a = s.check()
  s.pop()
  if a == z3.unsat:
    res = True
  else:
    s.push()
    s.add(c)
    b = s.check()
    s.pop()
    if b == z3.unsat:
      res = False
  C.decided[k] = (c, res)
  return res


# --------------------------------------------------------------- raw reals / ints
def is_c(x):
  return isinstance(x, (int, Fraction, bool))


def R(x):
  """to z3 Real"""
  if isinstance(x, Fraction):
    return z3.RealVal(x)
  if isinstance(x, (int, bool)):
    return z3.RealVal(int(x))
  if isinstance(x, Ar) and x.is_int():
    return z3.ToReal(x)
  return x


def I(x):
  if isinstance(x, (int, np.integer)):
    return z3.IntVal(int(x))
  return x


def B(x):
  if isinstance(x, (bool, np.bool_)):
    return z3.BoolVal(bool(x))
  return x


def radd(a, b):
  if is_c(a) and is_c(b):
    return a + b
  if is_c(a) and a == 0:
    return b
  if is_c(b) and b == 0:
    return a
  return R(a) + R(b)


def rneg(a):
  if is_c(a):
    return -a
  return -a


def rsub(a, b):
  if is_c(a) and is_c(b):
    return a - b
  if is_c(b) and b == 0:
    return a
  if is_c(a) and a == 0:
    return rneg(b)
  if not is_c(a) and not is_c(b) and a.eq(b):
    return Fraction(0)
  return R(a) - R(b)


def rmul(a, b):
  if is_c(a) and is_c(b):
    return a * b
  for x, y in ((a, b), (b, a)):
    if is_c(x):
      if x == 0:
        return Fraction(0)
      if x == 1:
        return y
  return R(a) * R(b)


def rdiv(a, b):
  if is_c(b):
    assert b != 0
    if is_c(a):
      return Fraction(a) / Fraction(b)
    return rmul(1 / Fraction(b), a)
  if is_c(a) and a == 0:
    return Fraction(0)
  return R(a) / R(b)


def iadd(a, b):
  if isinstance(a, int) and isinstance(b, int):
    return a + b
  if isinstance(a, int) and a == 0:
    return b
  if isinstance(b, int) and b == 0:
    return a
  return a + b


def isub(a, b):
  if isinstance(a, int) and isinstance(b, int):
    return a - b
  if isinstance(b, int) and b == 0:
    return a
  if isinstance(a, Ar) and isinstance(b, Ar) and a.eq(b):
    return 0
  return a - b


def imul(a, b):
  if isinstance(a, int) and isinstance(b, int):
    return a * b
  for x, y in ((a, b), (b, a)):
    if isinstance(x, int):
      if x == 0:
        return 0
      if x == 1:
        return y
  return a * b


_PI_APPROX = Fraction('3.14159265358979')


def pi_coeff(t):
  """c if t is c*PI"""
  if is_c(t):
    return None
  if t.eq(PI):
    return Fraction(1)
  if z3.is_mul(t) and t.num_args() == 2 and z3.is_rational_value(t.arg(0)) and t.arg(1).eq(PI):
    return t.arg(0).as_fraction()
  return None


def nonneg(t, depth=0):
  """syntactic check that a real term is >= 0"""
  if is_c(t):
    return t >= 0
  if z3.is_rational_value(t):
    return t.as_fraction() >= 0
  if depth > 30:
    return False
  if z3.is_add(t):
    return all(nonneg(x, depth + 1) for x in t.children())
  if z3.is_mul(t):
    ch = list(t.children())
    rest = []
    while ch:
      x = ch.pop()
      for i, y in enumerate(ch):
        if x.eq(y):
          ch.pop(i)
          break
      else:
        rest.append(x)
    return all(nonneg(x, depth + 1) for x in rest)
  if z3.is_app(t):
    k = t.decl().kind()
    if k == z3.Z3_OP_ITE:
      return nonneg(t.arg(1), depth + 1) and nonneg(t.arg(2), depth + 1)
    if k == z3.Z3_OP_POWER and z3.is_rational_value(t.arg(1)):
      e = t.arg(1).as_fraction()
      return e.denominator == 1 and e % 2 == 0
    if t.decl().name() in ('sqrt', 'exp'):
      return True
    if t.eq(PI):
      return True
  return False


def pos(t, depth=0):
  """syntactic check that a real term is > 0"""
  if is_c(t):
    return t > 0
  if z3.is_rational_value(t):
    return t.as_fraction() > 0
  if depth > 12 or not z3.is_app(t):
    return False
  if z3.is_add(t):
    ch = t.children()
    return any(pos(x, depth + 1) for x in ch) and all(nonneg(x, depth + 1) for x in ch)
  if z3.is_mul(t):
    return all(pos(x, depth + 1) for x in t.children())
  k = t.decl().kind()
  if k == z3.Z3_OP_ITE:
    return pos(t.arg(1), depth + 1) and pos(t.arg(2), depth + 1)
  if k == z3.Z3_OP_DIV:
    return pos(t.arg(0), depth + 1) and pos(t.arg(1), depth + 1)
  n = t.decl().name()
  return n == 'exp' or t.eq(PI) or (n == 'sqrt' and pos(t.arg(0), depth + 1))


def _cmp0(op, a, b):
  """the sign decides a comparison with zero"""
  if is_c(a) and a == 0 and not is_c(b) and b.sort_kind() == z3.Z3_REAL_SORT:
    if pos(b):
      return bool(op(0, 1))
    if op(0, 0) == op(0, 1) and nonneg(b):
      return bool(op(0, 0))
  if is_c(b) and b == 0 and not is_c(a) and a.sort_kind() == z3.Z3_REAL_SORT:
    if pos(a):
      return bool(op(1, 0))
    if op(0, 0) == op(1, 0) and nonneg(a):
      return bool(op(0, 0))
  return None


def _cmp(op, a, b):
  if is_c(a) and is_c(b):
    return bool(op(a, b))
  r = _cmp0(op, a, b)
  if r is not None:
    return r
  pa, pb = pi_coeff(a), pi_coeff(b)
  if (pa is not None or is_c(a)) and (pb is not None or is_c(b)):
    va = pa * _PI_APPROX if pa is not None else a
    vb = pb * _PI_APPROX if pb is not None else b
    if va == vb:
      return bool(op(0, 0))
    if abs(va - vb) > Fraction(1, 10**6):
      return bool(op(va, vb))
  if not is_c(a) and not is_c(b) and a.eq(b):
    return bool(op(0, 0))
  isint = lambda x: isinstance(x, int) or (isinstance(x, Ar) and x.is_int())
  if isint(a) and isint(b):
    return op(I(a), I(b))
  return op(R(a), R(b))


def lt(a, b):
  return _cmp(lambda x, y: x < y, a, b)


def le(a, b):
  return _cmp(lambda x, y: x <= y, a, b)


def eq(a, b):
  return _cmp(lambda x, y: x == y, a, b)


# --------------------------------------------------------------- bools
def And(*xs):
  out = []
  for x in xs:
    if isinstance(x, (list, tuple)):
      x = And(*x)
    if x is True or (isinstance(x, np.bool_) and x):
      continue
    if x is False or isinstance(x, np.bool_):
      return False
    if z3.is_true(x):
      continue
    if z3.is_false(x):
      return False
    if any(x.eq(o) for o in out):
      continue
    out.append(x)
  if not out:
    return True
  return out[0] if len(out) == 1 else z3.And(*out)


def Or(*xs):
  out = []
  for x in xs:
    if isinstance(x, (list, tuple)):
      x = Or(*x)
    if x is False or (isinstance(x, np.bool_) and not x):
      continue
    if x is True or isinstance(x, np.bool_):
      return True
    if z3.is_false(x):
      continue
    if z3.is_true(x):
      return True
    if any(x.eq(o) for o in out):
      continue
    out.append(x)
  if not out:
    return False
  return out[0] if len(out) == 1 else z3.Or(*out)


def Not(x):
  if isinstance(x, (bool, np.bool_)):
    return not x
  if z3.is_not(x):
    return x.arg(0)
  return z3.Not(x)


def Implies(a, b):
  return Or(Not(a), b)


def beq(a, b):
  if isinstance(a, bool) and isinstance(b, bool):
    return a == b
  if isinstance(a, bool):
    return b if a else Not(b)
  if isinstance(b, bool):
    return a if b else Not(a)
  if a.eq(b):
    return True
  return a == b


def same(a, b):
  if isinstance(a, F) != isinstance(b, F):
    return False
  if isinstance(a, F):
    return same(a.r, b.r) and same(a.nan, b.nan) and same(a.pinf, b.pinf) and same(a.ninf, b.ninf)
  if is_c(a) and is_c(b):
    return type(a) == type(b) and a == b or (not isinstance(a, bool) and not isinstance(b, bool) and a == b)
  if is_c(a) or is_c(b):
    return False
  return a.eq(b)


def bite(c, a, b):
  """ite on bools"""
  c = decide(c)
  if c is True:
    return a
  if c is False:
    return b
  if same(a, b):
    return a
  if a is True and b is False:
    return c
  if a is False and b is True:
    return Not(c)
  if a is True:
    return Or(c, b)
  if a is False:
    return And(Not(c), b)
  if b is True:
    return Or(Not(c), a)
  if b is False:
    return And(c, a)
  return z3.If(c, a, b)


# --------------------------------------------------------------- floats
class F:
  __slots__ = ('r', 'nan', 'pinf', 'ninf')

  def __init__(self, r, nan=False, pinf=False, ninf=False):
    self.r, self.nan, self.pinf, self.ninf = r, nan, pinf, ninf

  @property
  def fin(self):
    return self.nan is False and self.pinf is False and self.ninf is False

  def isfin(self):
    return Not(Or(self.nan, self.pinf, self.ninf))

  def __repr__(self):
    return f'F({self.r}{"" if self.fin else f",{self.nan},{self.pinf},{self.ninf}"})'


ZERO = F(Fraction(0))
ONE = F(Fraction(1))
NAN = F(Fraction(0), nan=True)
PINF = F(Fraction(0), pinf=True)
NINF = F(Fraction(0), ninf=True)

PI = z3.Real('PI')
_PI_MULT = {}
for _num in range(-8, 9):
  for _den in (1, 2, 4):
    _f = Fraction(_num, _den)
    if _f:
      _PI_MULT[float(np.float32(math.pi * float(_f)))] = _f


def flit(v):
  """A float literal: the shortest decimal denoting the same float32, or a multiple of PI."""
  v32 = np.float32(v)
  if np.isnan(v32):
    return NAN
  if np.isinf(v32):
    return PINF if v32 > 0 else NINF
  f = float(v32)
  if not CTX.numeric:
    if f in _PI_MULT:
      return F(rmul(_PI_MULT[f], PI))
    return F(Fraction(str(v32)) if 'e' not in str(v32) else Fraction(np.format_float_positional(v32, unique=True).rstrip('.') or '0'))
  return F(Fraction(f))


def fadd(a, b):
  if a.fin and b.fin:
    return F(radd(a.r, b.r))
  nan = Or(a.nan, b.nan, And(a.pinf, b.ninf), And(a.ninf, b.pinf))
  return F(radd(a.r, b.r), nan, And(Not(nan), Or(a.pinf, b.pinf)), And(Not(nan), Or(a.ninf, b.ninf)))


def fneg(a):
  return F(rneg(a.r), a.nan, a.ninf, a.pinf)


def fsub(a, b):
  if a.fin and b.fin:
    return F(rsub(a.r, b.r))
  return fadd(a, fneg(b))


def _sgn(a):
  """(positive, negative, zero) for non-nan value"""
  nf = Not(Or(a.pinf, a.ninf))
  return (Or(a.pinf, And(nf, lt(0, a.r))), Or(a.ninf, And(nf, lt(a.r, 0))), And(nf, eq(a.r, 0)))


def fmul(a, b):
  if a.fin and b.fin:
    return F(rmul(a.r, b.r))
  ap, an, az = _sgn(a)
  bp, bn, bz = _sgn(b)
  ai, bi = Or(a.pinf, a.ninf), Or(b.pinf, b.ninf)
  nan = Or(a.nan, b.nan, And(ai, bz), And(bi, az))
  inf = And(Or(ai, bi), Not(nan))
  pos = Or(And(ap, bp), And(an, bn))
  return F(rmul(a.r, b.r), nan, And(inf, pos), And(inf, Not(pos)))


def fdiv(a, b):
  if b.fin and is_c(b.r) and b.r != 0:
    if a.fin:
      return F(rdiv(a.r, b.r))
    pos = b.r > 0
    return F(rdiv(a.r, b.r), a.nan, a.pinf if pos else a.ninf, a.ninf if pos else a.pinf)
  ap, an, az = _sgn(a)
  bp, bn, bz = _sgn(b)
  ai, bi = Or(a.pinf, a.ninf), Or(b.pinf, b.ninf)
  nan = Or(a.nan, b.nan, And(ai, bi), And(az, bz))
  inf = And(Not(nan), Or(ai, bz))
  # the sign of a zero divisor is not modelled: an arbitrary bool
  if bz is False:
    zs = False
  elif is_c(b.r) and b.r == 0 and CTX.numeric:
    zs = False
  else:
    key = ('zsign', R(b.r).get_id())
    if key not in CTX.memo:
      CTX.memo[key] = (z3.Bool(CTX.fresh('zs')), b.r)
    zs = CTX.memo[key][0]
  bneg = Or(bn, And(bz, zs))
  pos = Or(And(ap, Not(bneg)), And(an, bneg), And(az, bp))
  isfz = And(bi, Not(nan))  # finite / inf = 0
  q = Fraction(0) if (is_c(b.r) and b.r == 0) else rdiv(a.r, b.r)
  r = rite(isfz, Fraction(0), q)
  return F(r, nan, And(inf, pos), And(inf, Not(pos)))


def rite(c, a, b):
  c = decide(c)
  if c is True:
    return a
  if c is False:
    return b
  if same(a, b):
    return a
  return z3.If(c, R(a), R(b))


def iite(c, a, b):
  c = decide(c)
  if c is True:
    return a
  if c is False:
    return b
  if same(a, b):
    return a
  m = _minmax_of(c, a, b)
  if m is not None:
    return m
  return z3.If(c, I(a), I(b))


def _minmax_of(c, a, b):
  """`a if a >= b else b` (or >, <=, <, or a comparison equivalent to one of them over the integers) as imax / imin"""
  neg = False
  while z3.is_not(c):
    c, neg = c.arg(0), not neg
  if not (z3.is_le(c) or z3.is_ge(c) or z3.is_lt(c) or z3.is_gt(c)) or not z3.is_int(c.arg(0)):
    return None
  l, r = c.arg(0), c.arg(1)
  if z3.is_ge(c) or z3.is_gt(c):
    l, r = r, l
  strict = z3.is_lt(c) or z3.is_gt(c)
  if neg:                                      # not (l <= r)  is  r < l
    l, r, strict = r, l, not strict
  e = l - r + (1 if strict else 0)             # c  iff  e <= 0
  d = I(a) - I(b)
  for sgn, kd in ((-1, 'min'), (1, 'max')):
    k = z3.simplify(e + sgn * d)
    if z3.is_int_value(k) and k.as_long() in (0, 1):
      a, b = _iordered(a, b)
      cc = decide(le(a, b) if kd == 'min' else le(b, a))
      return a if cc is True else b if cc is False else z3.If(cc, I(a), I(b))
  return None


def fite(c, a, b):
  c = decide(c)
  if c is True:
    return a
  if c is False:
    return b
  if CTX.memo.get('remexpr') and not is_c(a.r) and not is_c(b.r):
    m = _floor_fix(c, a, b)
    if m is not None:
      return F(m, bite(c, a.nan, b.nan), bite(c, a.pinf, b.pinf), bite(c, a.ninf, b.ninf))
  return F(rite(c, a.r, b.r), bite(c, a.nan, b.nan), bite(c, a.pinf, b.pinf), bite(c, a.ninf, b.ninf))


def flt(a, b):
  if a.fin and b.fin:
    return lt(a.r, b.r)
  nn = Not(Or(a.nan, b.nan))
  af, bf = Not(Or(a.pinf, a.ninf)), Not(Or(b.pinf, b.ninf))
  return And(nn, Or(And(af, bf, lt(a.r, b.r)), And(a.ninf, Not(b.ninf)), And(b.pinf, Not(a.pinf))))


def feq(a, b):
  """IEEE =="""
  if a.fin and b.fin:
    return eq(a.r, b.r)
  nn = Not(Or(a.nan, b.nan))
  af, bf = Not(Or(a.pinf, a.ninf)), Not(Or(b.pinf, b.ninf))
  return And(nn, Or(And(af, bf, eq(a.r, b.r)), And(a.pinf, b.pinf), And(a.ninf, b.ninf)))


def fle(a, b):
  if a.fin and b.fin:
    return le(a.r, b.r)
  return Or(flt(a, b), feq(a, b))


def fsame(a, b):
  """identical values (nan == nan)"""
  if a.fin and b.fin:
    return eq(a.r, b.r)
  return And(beq(a.nan, b.nan), beq(a.pinf, b.pinf), beq(a.ninf, b.ninf),
             Or(Not(And(a.isfin(), b.isfin())), eq(a.r, b.r)))


def _ordered(a, b):
  """canonical argument order for commutative min/max"""
  k = lambda x: (0, 0) if is_c(x.r) else (1, x.r.get_id())
  return (a, b) if k(a) <= k(b) else (b, a)


def _iordered(a, b):
  """numerals second, otherwise by identity: one form for maxima (minima) written in either order"""
  if is_c(a) and not is_c(b):
    return b, a
  if not is_c(a) and not is_c(b) and b.get_id() < a.get_id():
    return b, a
  return a, b


def imax(a, b):
  a, b = _iordered(a, b)
  return iite(le(b, a), a, b)


def imin(a, b):
  a, b = _iordered(a, b)
  return iite(le(a, b), a, b)


def _extset(kd, a):
  """flattened canonical argument ids of a nest of finite maxima (minima)"""
  if is_c(a):
    return frozenset((('c', a),))
  d = CTX.memo.setdefault('ext' + kd, {})
  k = a.get_id()
  if k not in d:
    x = z3.simplify(a, som=True, sort_sums=True)
    CTX.keep += [x, a]
    d[k] = frozenset((x.get_id(),))
  return d[k]


def _ext(kd, a, b, mk):
  """max/min of two finite reals; equal argument sets give the same term (associativity, commutativity)"""
  key = _extset(kd, a) | _extset(kd, b)
  d = CTX.memo.setdefault('extval' + kd, {})
  if key not in d:
    r = mk()
    d[key] = r
    if not is_c(r):
      CTX.keep.append(r)
      CTX.memo.setdefault('ext' + kd, {})[r.get_id()] = key
  return F(d[key])


def fmax(a, b):
  if a.fin and b.fin:
    if is_c(a.r) and is_c(b.r):
      return F(max(a.r, b.r))
    a, b = _ordered(a, b)
    return _ext('max', a.r, b.r, lambda: rite(le(b.r, a.r), a.r, b.r))
  if a.fin and is_c(a.r):
    a, b = b, a
  if b.fin and is_c(b.r):   # the form of where(a < b, b, a)
    return fite(flt(a, b), b, a)
  c = Or(a.nan, And(Not(b.nan), fle(b, a)))
  return fite(c, a, b)


def fmin(a, b):
  if a.fin and b.fin:
    if is_c(a.r) and is_c(b.r):
      return F(min(a.r, b.r))
    a, b = _ordered(a, b)
    return _ext('min', a.r, b.r, lambda: rite(le(a.r, b.r), a.r, b.r))
  if a.fin and is_c(a.r):
    a, b = b, a
  if b.fin and is_c(b.r):   # the form of where(a < b, b, a)
    return fite(flt(b, a), b, a)
  c = Or(a.nan, And(Not(b.nan), fle(a, b)))
  return fite(c, a, b)


def fabs(a):
  if is_c(a.r):
    r = abs(a.r)
  else:
    r = z3.If(a.r >= 0, a.r, -a.r)
  return F(r, a.nan, Or(a.pinf, a.ninf), False)


# generic ite over any value kind
def ite(c, a, b):
  if isinstance(a, F):
    return fite(c, a, b)
  if c is True:
    return a
  if c is False:
    return b
  isb = lambda x: isinstance(x, bool) or isinstance(x, z3.BoolRef)
  if isb(a):
    return bite(c, a, b)
  return iite(c, a, b)


def vsame(a, b):
  if isinstance(a, F):
    return fsame(a, b)
  isb = lambda x: isinstance(x, bool) or isinstance(x, z3.BoolRef)
  if isb(a) and isb(b):
    return beq(a, b)
  return eq(a, b)


# --------------------------------------------------------------- transcendental UFs
UF = {
    n: z3.Function(n, *([z3.RealSort()] * k))
    for n, k in dict(sin=2, cos=2, tan=2, sqrt=2, exp=2, log=2, atan2=3, tanh=2, acos=2,
                     asin=2, atan=2, rpow=3).items()
}
UF['f32int'] = z3.Function('f32int', z3.IntSort(), z3.RealSort())


def _frac(x):
  return Fraction(float(x))


def _canon(a):
  """canonical form of an argument of a transcendental function"""
  if is_c(a):
    return Fraction(a)
  return z3.simplify(a, som=True, sort_sums=True) if not is_c(a) else a


def uf_sincos(a):
  """(sin a, cos a) raw reals"""
  if is_c(a):
    if a == 0:
      return Fraction(0), Fraction(1)
    if CTX.numeric:
      return _frac(math.sin(a)), _frac(math.cos(a))
    a = R(a)
  a = _canon(a)
  if is_c(a):
    return uf_sincos(a)
  if z3.is_rational_value(a):
    if a.as_fraction() == 0:
      return Fraction(0), Fraction(1)
  k = a.get_id()
  if k in CTX.trig:
    return CTX.trig[k][1:]
  # parity: sin(-x) = -sin x, cos(-x) = cos x
  n = z3.simplify(-a, som=True, sort_sums=True)
  kn = n.get_id()
  if kn in CTX.trig:
    _, s, c = CTX.trig[kn]
    return rneg(s), c
  s, c = UF['sin'](a), UF['cos'](a)
  CTX.trig[k] = (a, s, c)
  CTX.keep.append(a)
  f = s * s + c * c == 1
  CTX.fact(s, f)
  CTX.fact(c, f)
  for g in (z3.And(s <= 1, s >= -1), z3.And(c <= 1, c >= -1)):
    CTX.fact(s, g)
    CTX.fact(c, g)
  return s, c


def fsin(a):
  s, _ = uf_sincos(a.r)
  bad = Or(a.nan, a.pinf, a.ninf)
  return F(s, bad)


def fcos(a):
  _, c = uf_sincos(a.r)
  bad = Or(a.nan, a.pinf, a.ninf)
  return F(c, bad)


def pythagoras(x):
  """k m sin^2 t + k m cos^2 t = k m in a sum of monomials"""
  if not z3.is_add(x):
    return x
  terms = []
  for m in x.children():
    cf, fs = Fraction(1), []
    st = [m]
    while st:
      y = st.pop()
      if z3.is_mul(y):
        st.extend(y.children())
      elif z3.is_app(y) and y.decl().kind() == z3.Z3_OP_POWER and z3.is_rational_value(y.arg(1)) and y.arg(1).as_fraction() == 2:
        st += [y.arg(0)] * 2
      elif z3.is_rational_value(y):
        cf *= y.as_fraction()
      else:
        fs.append(y)
    terms.append((cf, fs))
  def trig2(fs):
    for i, y in enumerate(fs):
      if z3.is_app(y) and y.decl().name() in ('sin', 'cos') and y.num_args() == 1 and any(y.eq(z) for z in fs[i + 1:]):
        rest = list(fs)
        for _ in range(2):
          rest.pop([k for k, z in enumerate(rest) if z.eq(y)][0])
        yield y, rest
  changed = True
  hit = False
  while changed:
    changed = False
    for i in range(len(terms)):
      for y, rest in trig2(terms[i][1]):
        for j in range(len(terms)):
          if j != i and terms[j][0] == terms[i][0]:
            for w, rest2 in trig2(terms[j][1]):
              if w.decl().name() != y.decl().name() and w.arg(0).eq(y.arg(0)) and sorted(z.get_id() for z in rest) == sorted(z.get_id() for z in rest2):
                new = (terms[i][0], rest)
                terms = [t for k, t in enumerate(terms) if k not in (i, j)] + [new]
                changed = hit = True
                break
          if changed:
            break
        if changed:
          break
      if changed:
        break
  if not hit:
    return x
  out = None
  for cf, fs in terms:
    t = z3.RealVal(str(cf)) if not fs else z3.Product(*([z3.RealVal(str(cf))] + fs))
    out = t if out is None else out + t
  return z3.simplify(out, som=True, sort_sums=True)


def fsqrt(a):
  if is_c(a.r) and a.fin:
    if a.r < 0:
      return NAN
    n, d = a.r.numerator if isinstance(a.r, Fraction) else a.r, a.r.denominator if isinstance(a.r, Fraction) else 1
    sn, sd = math.isqrt(n), math.isqrt(d)
    if sn * sn == n and sd * sd == d:
      return F(Fraction(sn, sd))
    if CTX.numeric:
      return F(_frac(math.sqrt(a.r)))
  x = pythagoras(z3.simplify(R(a.r), som=True, sort_sums=True))
  if z3.is_rational_value(x) and not is_c(a.r):
    return fsqrt(F(x.as_fraction(), a.nan, a.pinf, a.ninf))
  s = UF['sqrt'](x)
  CTX.fact(s, z3.And(s >= 0, z3.Implies(x >= 0, s * s == x)))
  neg = False if nonneg(a.r) else And(Not(Or(a.pinf, a.ninf, a.nan)), lt(a.r, 0))
  return F(s, Or(a.nan, a.ninf, neg), a.pinf)


def fatan2(y, x):
  if is_c(y.r) and is_c(x.r) and CTX.numeric:
    return F(_frac(math.atan2(y.r, x.r)))
  yy, xx = _canon(R(y.r)), _canon(R(x.r))
  t = UF['atan2'](yy, xx)
  bad = Or(y.nan, x.nan, y.pinf, y.ninf, x.pinf, x.ninf)
  key = ('atan2', t.get_id())
  if key not in CTX.memo:
    CTX.memo[key] = t
    s, c = uf_sincos(t)
    nrm = fsqrt(F(rsimp(yy * yy + xx * xx))).r
    f = z3.And(t > -PI, t <= PI, R(nrm) * s == yy, R(nrm) * c == xx,
               z3.Implies(z3.And(yy == 0, xx >= 0), t == 0),
               z3.Implies(z3.And(yy == 0, xx < 0), t == PI),
               z3.Implies(yy > 0, z3.And(t > 0, t < PI)),
               z3.Implies(yy < 0, z3.And(t < 0, t > -PI)))
    CTX.fact(t, f)
  return F(t, bad)


def rsimp(x):
  if is_c(x):
    return x
  return z3.simplify(x, som=True, sort_sums=True)


def uf1(name, a):
  if is_c(a.r) and CTX.numeric and a.fin:
    return F(_frac(getattr(math, name)(a.r)))
  x = _canon(R(a.r))
  t = UF[name](x)
  if name == 'exp':
    CTX.fact(t, z3.And(t > 0, z3.Implies(x == 0, t == 1), z3.Implies(x > 0, t > 1), z3.Implies(x < 0, t < 1)))
  if name == 'tan':
    s, c = uf_sincos(x)
    CTX.fact(t, z3.Implies(c != 0, t * c == s))
  if name == 'tanh':
    CTX.fact(t, z3.And(t > -1, t < 1))
  bad = Or(a.nan, a.pinf, a.ninf)
  return F(t, bad)


def ifloor(r):
  """floor of a raw real -> int"""
  if is_c(r):
    return math.floor(r)
  if z3.is_app(r) and r.decl().kind() == z3.Z3_OP_TO_REAL:
    return r.arg(0)
  return z3.ToInt(r)


def ffloor(a):
  return F(R(ifloor(a.r)) if not is_c(a.r) else Fraction(math.floor(a.r)), a.nan, a.pinf, a.ninf)


def fceil(a):
  return fneg(ffloor(fneg(a)))


def fround_even(a):
  if is_c(a.r):
    return F(Fraction(round(a.r)), a.nan, a.pinf, a.ninf)
  fl = ifloor(a.r)
  d = rsub(a.r, R(fl))
  half = Fraction(1, 2)
  up = Or(lt(half, d), And(eq(d, half), I(fl) % 2 == 1))
  return F(R(iite(up, iadd(fl, 1), fl)), a.nan, a.pinf, a.ninf)


def fround_away(a):
  if is_c(a.r):
    return F(Fraction(math.floor(abs(a.r) + Fraction(1, 2)) * (1 if a.r >= 0 else -1)), a.nan, a.pinf, a.ninf)
  half = Fraction(1, 2)
  pos = ifloor(radd(a.r, half))
  neg = ifloor(radd(rneg(a.r), half))
  return F(R(iite(le(0, a.r), pos, -neg)), a.nan, a.pinf, a.ninf)


def fsign(a):
  return fite(Or(a.nan), NAN, fite(flt(ZERO, a), ONE, fite(flt(a, ZERO), fneg(ONE), ZERO)))


def ftrunc_int(a):
  """float -> int conversion (truncation toward zero); nan/inf unspecified"""
  if is_c(a.r):
    t = int(a.r)
  else:
    if z3.is_app(a.r) and a.r.decl().kind() == z3.Z3_OP_TO_REAL:
      t = a.r.arg(0)
    else:
      t = iite(le(0, a.r), ifloor(a.r), -I(ifloor(rneg(a.r))))
  if not a.fin:
    t = iite(a.isfin(), t, z3.Int(CTX.fresh('undef')))
  return t


def _small(x):
  """a count of array elements, or chosen between counts and small numbers"""
  if z3.is_int_value(x):
    return abs(x.as_long()) <= 1 << 24
  if z3.is_app_of(x, z3.Z3_OP_ITE):
    return _small(x.arg(1)) and _small(x.arg(2))
  return x.get_id() in CTX.memo.get('counts', {})


def itof(x):
  """int32 -> float32: exact up to 2^24, otherwise an unspecified rounding"""
  if isinstance(x, int):
    return F(Fraction(int(np.float32(x))))
  if _small(x):
    return F(z3.ToReal(x))
  lim = 1 << 24
  t = UF['f32int'](x)
  CTX.fact(t, z3.Implies(z3.And(x <= lim, x >= -lim), t == z3.ToReal(x)))
  return F(t)


def floormod(ar, br):
  key = ('mod', ar.get_id(), br.get_id())
  if key not in CTX.memo:
    q = z3.Int(CTX.fresh('modq'))
    m = z3.Real(CTX.fresh('mod'))
    CTX.fact(m, z3.And(ar == z3.ToReal(q) * br + m, m >= 0, m < br))
    CTX.memo[key] = (m, q, ar, br)
    CTX.memo.setdefault('rems', {})[m.get_id()] = (m, ar, br)
    CTX.keep += [ar, br]
  return CTX.memo[key][0]


def _floor_fix(c, a, b):
  """select(rem has the wrong sign, rem + b, rem) is the floor modulus"""
  t = CTX.memo.get('remexpr', {}).get(b.r.get_id()) if z3.is_expr(b.r) else None
  if t is None or not z3.is_expr(c) or not z3.is_expr(a.r):
    return None
  r, m, ar, br = t
  if not z3.simplify(a.r - (r + br)).eq(z3.RealVal(0)):
    return None
  s = z3.SimpleSolver()
  s.set('timeout', 300)
  s.add(br > 0, m >= 0, m < br, PI > 3, PI < 4, c != (r < 0))
  if s.check() != z3.unsat:
    return None
  return m


def frem(a, b):
  """C fmod (sign of dividend), b a finite value"""
  if is_c(a.r) and is_c(b.r) and a.fin and b.fin and b.r != 0:
    q = int(Fraction(a.r) / Fraction(b.r))
    return F(Fraction(a.r) - q * Fraction(b.r))
  ar, br = _canon(R(a.r)), R(b.r)
  if is_c(b.r) and b.r > 0 or _is_pi_multiple(br) and pi_coeff(br) > 0:
    # floor quotient: ar = q * br + m, 0 <= m < br; the C remainder is derived from m
    m = floormod(ar, br)
    r = z3.If(z3.Or(ar >= 0, m == 0), m, m - br)
    CTX.memo.setdefault('remexpr', {})[r.get_id()] = (r, m, ar, br)
    return F(r, Or(a.nan, b.nan, a.pinf, a.ninf))
  key = ('rem', ar.get_id(), br.get_id())
  if key not in CTX.memo:
    q = z3.Int(CTX.fresh('remq'))
    r = z3.Real(CTX.fresh('rem'))
    ab = z3.If(br >= 0, br, -br)
    CTX.fact(r, z3.Implies(br != 0, z3.And(
        ar == z3.ToReal(q) * br + r,
        z3.Implies(ar >= 0, z3.And(r >= 0, r < ab)),
        z3.Implies(ar <= 0, z3.And(r <= 0, -r < ab)))))
    CTX.memo[key] = (r, q, ar, br)
    CTX.memo.setdefault('rems', {})[r.get_id()] = (r, ar, br)
    CTX.keep += [ar, br]
  r = CTX.memo[key][0]
  bz = eq(b.r, 0)
  if bz is not False and not is_c(b.r) and b.r.eq(PI):
    bz = False
  if z3.is_expr(bz):
    s = z3.simplify(bz)
    # c*PI == 0 is never true
    if not is_c(b.r) and _is_pi_multiple(b.r):
      bz = False
  return F(r, Or(a.nan, b.nan, a.pinf, a.ninf, bz))


def _is_pi_multiple(t):
  return bool(pi_coeff(t))


def fmod_floor(a, b):
  """python-style modulus (sign of the divisor)"""
  r = frem(a, b)
  fix = And(Not(feq(r, ZERO)), Not(beq(flt(r, ZERO), flt(b, ZERO))))
  return fite(fix, fadd(r, b), r)


def fpow_int(a, n):
  if n == 0:
    return ONE
  if n < 0:
    return fdiv(ONE, fpow_int(a, -n))
  out = a
  for _ in range(n - 1):
    out = fmul(out, a)
  if n % 2 == 0 and a.fin:
    pass
  return out


def irem(a, b):
  """C remainder on ints"""
  if isinstance(a, int) and isinstance(b, int):
    return int(math.fmod(a, b)) if b else 0
  if isinstance(b, int) and b:
    m = abs(b)
    return iite(le(0, a), I(a) % m, -((-I(a)) % m))
  a, b = I(a), I(b)
  ab = z3.If(b >= 0, b, -b)
  return z3.If(a >= 0, a % ab, -((-a) % ab))


def idiv(a, b):
  """C division (truncating)"""
  if isinstance(a, int) and isinstance(b, int):
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b >= 0) else -q
  if isinstance(b, int) and b > 0:
    if b == 1:
      return a
    a = I(a)
    return iite(le(0, a), a / b, -((-a) / b))
  a, b = I(a), I(b)
  aa = z3.If(a >= 0, a, -a)
  ab = z3.If(b >= 0, b, -b)
  q = aa / ab
  return z3.If((a >= 0) == (b >= 0), q, -q)


def trig_simplify(d):
  """a finite value that sin^2 + cos^2 = 1 forces to be 0 or 1, as that constant (proved by the solver)"""
  if not d.fin or is_c(d.r):
    return d
  x = z3.simplify(d.r, som=True, sort_sums=True)
  for k in (1, 0):
    s = z3.SolverFor('QF_NRA')
    s.set('timeout', 500)
    sub = []
    for i, (a, sn, cs) in enumerate(CTX.trig.values()):
      vs, vc = z3.Real(f'ts!{i}'), z3.Real(f'tc!{i}')
      sub += [(sn, vs), (cs, vc)]
      s.add(vs * vs + vc * vc == 1)
    s.add(z3.substitute(x, *sub) != k if sub else x != k)
    try:
      if s.check() == z3.unsat:
        return F(Fraction(k))
    except z3.Z3Exception:
      pass
  return F(x)
