"""Random valuations of terms. Used only to decide in which order (and whether) to attempt the proof that two reductions are the
same; never as evidence that they are."""
import math
import random
import z3
from . import terms as T

SEEDS = 120
REAL = dict(sqrt=lambda x: math.sqrt(x) if x >= 0 else 0.0, cos=math.cos, sin=math.sin)


def _num(e):
  if z3.is_int_value(e):
    return e.as_long()
  return float(e.numerator_as_long()) / float(e.denominator_as_long())


def _hash(name, args, seed):
  return random.Random(repr((name, tuple(round(a, 5) if isinstance(a, float) else a for a in args), seed)))


def _app(e, args, seed):
  n = e.decl().name()
  if n in REAL and len(args) == 1:
    return REAL[n](args[0])
  if n == 'pi' and not args:
    return math.pi
  r = _hash(n, args, seed)
  if z3.is_bool(e):
    return r.random() < (0.97, 0.85, 0.6)[seed % 3]
  if z3.is_int(e):
    if not args and n.startswith('dim_'):
      return r.randint(4, 9)
    return r.randint(0, 3)
  # one scale per function and seed: thresholds of any size are met on both sides
  return r.uniform(0.05, 1.0) * _hash(n, (), seed).choice((1.0, 3.0, 8.0, 25.0))


def value(e, seed):
  memo = T.ctx().memo.setdefault(('probe', seed), {})
  stack = [e]
  while stack:
    x = stack[-1]
    i = x.get_id()
    if i in memo:
      stack.pop()
      continue
    if z3.is_quantifier(x):
      raise ValueError('quantifier')
    if z3.is_int_value(x) or z3.is_rational_value(x):
      memo[i] = _num(x)
      stack.pop()
      continue
    ch = x.children()
    todo = [y for y in ch if y.get_id() not in memo]
    if todo:
      stack.extend(todo)
      continue
    stack.pop()
    memo[i] = _op(x, [memo[y.get_id()] for y in ch], seed)
  return memo[e.get_id()]


def _same(a, b):
  if isinstance(a, bool) or isinstance(b, bool):
    return a == b
  return abs(a - b) <= 1e-7 * (1 + abs(a) + abs(b))


def _op(x, a, seed):
  k = x.decl().kind()
  if k == z3.Z3_OP_UNINTERPRETED:
    return _app(x, a, seed)
  if k == z3.Z3_OP_TRUE: return True
  if k == z3.Z3_OP_FALSE: return False
  if k == z3.Z3_OP_AND: return all(a)
  if k == z3.Z3_OP_OR: return any(a)
  if k == z3.Z3_OP_NOT: return not a[0]
  if k == z3.Z3_OP_IMPLIES: return (not a[0]) or a[1]
  if k == z3.Z3_OP_ITE: return a[1] if a[0] else a[2]
  if k in (z3.Z3_OP_EQ, z3.Z3_OP_IFF): return _same(a[0], a[1])
  if k == z3.Z3_OP_DISTINCT: return all(not _same(a[i], a[j]) for i in range(len(a)) for j in range(i))
  if k == z3.Z3_OP_LE: return a[0] <= a[1]
  if k == z3.Z3_OP_GE: return a[0] >= a[1]
  if k == z3.Z3_OP_LT: return a[0] < a[1]
  if k == z3.Z3_OP_GT: return a[0] > a[1]
  if k == z3.Z3_OP_ADD: return sum(a)
  if k == z3.Z3_OP_MUL: return math.prod(a)
  if k == z3.Z3_OP_SUB: return a[0] - sum(a[1:])
  if k == z3.Z3_OP_UMINUS: return -a[0]
  if k == z3.Z3_OP_DIV: return a[0] / a[1] if a[1] else 0.0
  if k == z3.Z3_OP_IDIV: return a[0] // a[1] if a[1] > 0 else 0
  if k == z3.Z3_OP_MOD: return a[0] % a[1] if a[1] > 0 else 0
  if k == z3.Z3_OP_TO_REAL: return float(a[0])
  if k == z3.Z3_OP_TO_INT: return math.floor(a[0])
  if k == z3.Z3_OP_POWER: return a[0] ** a[1]
  raise ValueError(f'operator {x.decl().name()}')


def admissible(hyps):
  """the valuations under which the ground preconditions hold"""
  memo = T.ctx().memo
  key = ('probe.ok', len(hyps))
  if key not in memo:
    ok = []
    for s in range(SEEDS * 5):
      good = True
      for h in hyps:
        if not z3.is_expr(h) or z3.is_quantifier(h):
          continue
        try:
          if not value(h, s):
            good = False
            break
        except (ValueError, OverflowError, ZeroDivisionError):
          continue
      if good:
        ok.append(s)
      if len(ok) >= SEEDS:
        break
    memo[key] = ok
  return memo[key]


def differ(xs, ys, hyps, cond=True):
  """True when some admissible valuation (satisfying cond) makes the values differ; xs, ys: a value, then its NaN/inf flags"""
  for s in admissible(hyps):
    try:
      if cond is not True and not value(cond, s):
        continue
      f = [value(x, s) for x in xs[1:]]
      if f != [value(y, s) for y in ys[1:]]:
        return True
      if not any(f) and not _same(value(xs[0], s), value(ys[0], s)):
        return True
    except (ValueError, OverflowError, ZeroDivisionError):
      continue
  return False
