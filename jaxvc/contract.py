"""Contracts: the context object a contract text runs against (symbolic or concrete)."""
from __future__ import annotations
import copy
import dataclasses
import hashlib
import os
import re
import sys
import traceback
import numpy as np
import z3
import jax
import jax.numpy as jnp
from jax import export as jexport
from jax._src import core
from jax._src.export import shape_poly
from . import terms as T
from . import sem
from . import spec as S
from .spec import A, V

CONTRACTS = []

# JAX takes an undecided comparison of symbolic dimensions (N == 1) for False. Code under contract that compares dimensions is
# therefore traced again for each size at which such a comparison would hold (runner.degenerate).
DIM_EQ = []
CODE = os.path.join(os.path.abspath(os.environ.get('VERIF_REPO', '/repo')), 'waymax') + os.sep


def _watch_dim_eq():
  D = shape_poly._DimExpr
  eq = D.__eq__

  def new(self, other, _depth=1):
    r = eq(self, other)
    if not r and sys._getframe(_depth).f_code.co_filename.startswith(CODE):
      if isinstance(other, D) or core.is_constant_dim(other):
        d = self - other
        if isinstance(d, D):
          DIM_EQ.append(d)
    return r
  D.__eq__ = new
  D.__ne__ = lambda self, other: not new(self, other, 2)


_watch_dim_eq()


@dataclasses.dataclass
class Contract:
  prop: str
  name: str
  fn: object
  dims: dict
  prefixes: list
  variants: list
  target: str
  samples: int = 12
  eager: bool = False
  sym: bool = True
  conc: bool = True
  bounded_note: str = ''
  internal: bool = False   # on a private helper, which a refactoring may change or drop: never an alarm of its own
  shapes: int = 2
  tol: float = S.TOL
  timeout: float = 20
  deep: float = 0          # seconds per goal for deciding every condition first (long cascades of selections)
  modular: tuple = ()   # callees replaced by their contracts (unknown functions) in the symbolic run


def contract(prop, name, target, dims=None, prefixes=((),), variants=({},), **kw):
  """dims: name -> (lo, conc_hi); prefixes: tuples of dim names"""
  def d(fn):
    props = [prop] if isinstance(prop, str) else list(prop)
    for p in props:
      CONTRACTS.append(Contract(p, name, fn, dict(dims or {}), list(prefixes), list(variants), target, **kw))
    return fn
  return d


class Violated(Exception):
  """a concrete run contradicts the contract"""

  def __init__(self, what, detail):
    super().__init__(what)
    self.what, self.detail = what, detail


class Skip(Exception):
  """the concrete sample does not satisfy the precondition"""


class Excluded(Exception):
  """sizes the contract does not allow"""


class TraceError(Exception):
  """the real code could not be traced symbolically"""


class Leaf(A):
  def __init__(self, x, jshape, jdtype, name=None):
    super().__init__(x)
    self.jshape, self.jdtype, self.name = tuple(jshape), jdtype, name


def _isA(x):
  return isinstance(x, A)


def flatten(tree):
  return jax.tree_util.tree_flatten(tree, is_leaf=_isA)


_SORT = {'f': z3.RealSort(), 'i': z3.IntSort(), 'b': z3.BoolSort()}


class Base:
  def __init__(self, con: Contract, prefix, variant):
    self.con, self.v = con, variant
    self.pnames = prefix
    self.frame_checks = 0

  def dim(self, n):
    return self.d[n]

  def pydim(self, n):
    """the dimension as the Python code sees it (a symbolic dimension or an int)"""
    if self.conc:
      return int(self.sizes[n])
    self.pyused.add(n)
    return self.fixed[n] if n in self.fixed else self.jd[n]

  def remark(self, name, ok):
    """reported in the evidence, decides nothing"""
    self.__dict__.setdefault('remarks', {})[name] = bool(ok)

  def leafs(self, **kw):
    return {k: self.leaf(k, *v) for k, v in kw.items()}


def _frame(f, args, record):
  """run f and check that it did not mutate its argument pytrees"""
  before, td = jax.tree_util.tree_flatten(args)
  out = f(*args)
  after, td2 = jax.tree_util.tree_flatten(args)
  ok = td == td2 and len(before) == len(after) and all(a is b for a, b in zip(before, after))
  record(ok)
  return out


class Obligs(list):
  """obligations; each may only use what was assumed or proved before it was stated"""

  def __init__(self, c):
    super().__init__()
    self.c = c

  def append(self, o):
    super().append(dict(o, nh=len(self.c.hyps)))


class Path:
  """one path through the branches of a piece of Python code: its condition and its result or exception"""

  def __init__(self, c, k, cond, out, exc):
    self.c, self.k, self.cond, self.out, self.exc = c, k, cond, out, exc

  def __enter__(self):
    self.n = len(self.c.hyps) if self.c is not None else 0
    if self.c is not None:
      self.c.hyps.extend(self.cond)
    return self

  def __exit__(self, *a):
    if self.c is not None:
      for o in self.c.obligs:
        if o['nh'] > self.n and 'own' not in o:
          o['own'] = self.c.hyps[:o['nh']]
      del self.c.hyps[self.n:]
    return False


# ------------------------------------------------------------------ symbolic
class Sym(Base):
  conc = False

  def __init__(self, con, prefix, variant):
    super().__init__(con, prefix, variant)
    self.ctx = T.set_ctx(T.Ctx())
    S.CONC[0] = False
    del DIM_EQ[:]
    fixed = {n: b[0] for n, b in con.dims.items() if n != '_' and b[0] == b[1]}   # dimensions of one size (bounded contracts)
    names = [n for n in con.dims if n != '_' and n not in fixed]
    cons = [f'{n} >= {con.dims[n][0]}' for n in names]
    extra = list(con.dims.get('_', ()))
    for e in extra:
      e = re.sub(r'\b[A-Za-z_]\w*\b', lambda m: str(fixed.get(m.group(), m.group())), e)
      if re.search('[A-Za-z]', e):
        cons.append(e)
      elif not eval(e):
        raise Excluded(e)
    if names:
      vs = jexport.symbolic_shape(', '.join(names), constraints=cons)
    else:
      vs = ()
    self.jd = dict(zip(names, vs))
    self.d = {n: V(sem.dimvar(n)) for n in names}
    self.fixed = fixed
    self.d.update({n: V(k) for n, k in fixed.items()})
    self.cur = None
    self.ntrusted = 0
    self.hyps = [sem.dimvar(n) >= con.dims[n][0] for n in names]
    self.hyps += [eval(e, {}, {**{n: sem.dimvar(n) for n in names}, **fixed}) for e in extra]
    self.ctx.hyps = self.hyps
    self.obligs = Obligs(self)     # dict(name, hyps, goals, cands)
    self.leaves = []
    self.cands = []
    self.ncalls = 0
    self.code = []
    self.literals = set()
    self.pyused = set()
    self.prims = {}

  @property
  def prefix(self):
    return tuple(self.d[p] for p in self.pnames)

  def _jdim(self, s):
    s = S.raw(s)
    if isinstance(s, (int, np.integer)):
      return int(s)
    for n, j in self.jd.items():
      if sem.dimvar(n).eq(s):
        return j
    for n, j in self.jd.items():
      for k in range(-3, 4):
        if z3.simplify(s - sem.dimvar(n)).eq(z3.IntVal(k)):
          return j + k
    raise ValueError(f'dim {s}')

  def leaf(self, name, shape, dtype=np.float32, where=None, gen=None, _reg=True, fp=None):
    shape = tuple(S.raw(s) for s in shape)
    js = tuple(self._jdim(s) for s in shape)
    dt = np.dtype(dtype)
    k = sem.kind(dt)
    base = name
    i = 0
    taken = {l.name for l in self.leaves}
    while name in taken:
      i += 1
      name = f'{base}_{i}'
    n = len(shape)
    uf = z3.Function(name, *([z3.IntSort()] * n), _SORT[k]) if n else z3.Const(name, _SORT[k])
    leaf = None

    def fn(*ix):
      t = uf(*[T.I(i) for i in ix]) if n else uf
      first = t.get_id() not in leaf.apps
      leaf.apps[t.get_id()] = (t, ix)
      v = T.F(t) if k == 'f' else t
      if first:
        ctx = T.ctx()
        facts = []
        if k == 'i' and dt.kind == 'u':
          facts.append(t >= 0)
        if k == 'i' and where is None:
          facts.append(z3.And(t >= -(1 << 31), t < (1 << 31)))
        if where is not None:
          facts.append(S.raw(where(V(v), *[V(i) for i in ix])))
        for lk in leaf.links:
          facts.append(S.raw(lk(*[V(i) for i in ix])))
        for f in facts:
          if f is not True:
            rng = T.And(*[T.And(T.le(0, i), T.lt(i, d)) for i, d in zip(ix, shape)])
            ctx.fact(t, T.Implies(rng, f))
      return v
    arr = sem.Arr(shape, dt, fn)
    leaf = Leaf(arr, js, dt, name)
    leaf.apps, leaf.uf, leaf.links, leaf.where = {}, uf, [], where
    leaf.linkdefs = []
    if _reg:
      self.leaves.append(leaf)
    return leaf

  def key(self, name='rng'):
    """an opaque legacy PRNG key"""
    return self.leaf(name, (2,), np.uint32)

  def link(self, leaves, pred):
    """precondition relating several leaves at the same (leading) index"""
    for l in leaves:
      l.links.append(pred)

  def require(self, p):
    p = S.raw(p)
    if p is not True:
      self.hyps.append(p)

  def hint(self, *ks):
    self.cands += [S.raw(k) for k in ks]

  def fresh_int(self, name):
    return V(z3.Int(T.ctx().fresh(name)))

  def note_code(self, cj):
    """the program that was extracted (compared with the committed baseline only when a proof does not go through)"""
    h = hashlib.sha256(re.sub(r'0x[0-9a-f]+', '0x', str(cj.jaxpr)).encode())
    for k in cj.consts:
      try:
        k = np.asarray(k)
        h.update(repr((k.shape, str(k.dtype), k.tobytes())).encode())
      except Exception:
        h.update(b'?')
    self.code.append(h.hexdigest())
    _literals(cj.jaxpr, self.literals)
    for k in cj.consts:
      if getattr(k, 'size', 99) <= 4:
        self.literals.update(float(x) for x in np.ravel(np.asarray(k)) if np.asarray(k).dtype.kind in 'fi')

  # -- calls of real code
  def call(self, f, *args, warm=True, label=None):
    flat, td = flatten(args)
    sds = [jax.ShapeDtypeStruct(l.jshape, l.jdtype) for l in flat]
    frames = []
    outtree = []
    self.ncalls += 1

    def g(w, a):
      if warm:
        f(*jax.tree_util.tree_unflatten(td, w))
      out = _frame(f, jax.tree_util.tree_unflatten(td, a), frames.append)
      fl, ot = jax.tree_util.tree_flatten(out)
      outtree.append(ot)
      return [jnp.asarray(x) for x in fl]
    try:
      cj = jax.make_jaxpr(g)(list(sds) if warm else [], list(sds))
    except T.Unsupported:
      raise
    except Exception as e:
      raise TraceError(f'{type(e).__name__}: {e}') from e
    self.note_code(cj)
    if warm:
      wl = [self.leaf('warm_' + str(getattr(l, 'name', 'x')), [sem.dim(s) for s in l.jshape], l.jdtype, _reg=False) for l in flat]
    else:
      wl = []
    for e in cj.jaxpr.eqns:
      self.prims[e.primitive.name] = self.prims.get(e.primitive.name, 0) + 1
    outs = sem.eval_jaxpr(cj.jaxpr, cj.consts, [l.x for l in wl] + [l.x for l in flat])
    res = []
    for o, av in zip(outs, cj.out_avals):
      res.append(Leaf(o, av.shape, av.dtype))
    self.obligs.append(dict(name=f'frame[{label or self.ncalls}]', goals=[all(frames)], hyps=[], cands=[]))
    return jax.tree_util.tree_unflatten(outtree[-1], res)

  def paths(self, f, *args, limit=64):
    """Execute Python code that branches on array values: every path through its branches, each with its condition.
    Returns [Path]; use `with path:` around the obligations about it."""
    flat, td = flatten(args)
    sds = [jax.ShapeDtypeStruct(l.jshape, l.jdtype) for l in flat]
    out, todo = [], [()]
    self.ncalls += 1
    old = jax.core.Tracer.__bool__
    while todo:
      pre = todo.pop()
      taken, trs, got = [], [], {}

      def branch(tr):
        if len(trs) >= 24:
          raise TraceError('too many branches')
        trs.append(tr)
        taken.append(pre[len(taken)] if len(taken) < len(pre) else True)
        return taken[-1]

      def g(a):
        try:
          r = f(*jax.tree_util.tree_unflatten(td, a))
          got['exc'] = None
        except (T.Unsupported, TraceError):
          raise
        except jax.errors.JAXTypeError:
          raise
        except Exception as e:
          r, got['exc'] = None, e
        fl, got['tree'] = jax.tree_util.tree_flatten(r)
        got['n'] = len(fl)
        return [jnp.asarray(x) for x in fl] + list(trs)
      try:
        jax.core.Tracer.__bool__ = branch
        cj = jax.make_jaxpr(g)(list(sds))
      except T.Unsupported:
        raise
      except Exception as e:
        raise TraceError(f'{type(e).__name__}: {e}') from e
      finally:
        jax.core.Tracer.__bool__ = old
      self.note_code(cj)
      for k in range(len(pre), len(taken)):
        todo.append(tuple(taken[:k]) + (False,))
      for e in cj.jaxpr.eqns:
        self.prims[e.primitive.name] = self.prims.get(e.primitive.name, 0) + 1
      outs = sem.eval_jaxpr(cj.jaxpr, cj.consts, [l.x for l in flat])
      leaves = [Leaf(o, av.shape, av.dtype) for o, av in zip(outs, cj.out_avals)]
      n = got['n']
      cond = [S.raw(l[()]) if d else T.Not(S.raw(l[()])) for l, d in zip(leaves[n:], taken)]
      out.append(Path(self, len(out), cond, None if got['exc'] else jax.tree_util.tree_unflatten(got['tree'], leaves[:n]), got['exc']))
      if len(out) > limit:
        raise T.Unsupported('too many paths')
    return out

  # -- obligations
  def ensure(self, name, dims, pred, hint=None, cases=None):
    """pred at every index; cases: conditions to split on, the first that holds (or none)"""
    dims = tuple(S.raw(d) for d in dims)
    ix, hyps, cands = [], [], []
    conc = []
    for j, d in enumerate(dims):
      if isinstance(d, int) and d <= 8:
        conc.append(range(d))
        ix.append(None)
      else:
        v = z3.Int(T.ctx().fresh(f'ix{j}'))
        hyps += [v >= 0, v < d]
        T.ctx().fact(v, z3.And(v >= 0, v < d))
        T.ctx().memo.setdefault('rng', {})[v.get_id()] = d
        cands.append(v)
        conc.append([v])
        ix.append(v)
    import itertools
    goals = []
    self.cur = []
    for combo in itertools.product(*conc):
      g = pred(*[V(i) for i in combo])
      if cases is None:
        goals.append(S.raw(g))
        continue
      prev = []
      for h in list(cases(*[V(i) for i in combo])) + [V(True)]:
        goals.append(S.raw(S.Implies(S.And(*prev, h), g)))
        prev.append(S.Not(h))
    hyps, self.cur = hyps + self.cur, None
    extra = [S.raw(h) for h in (hint(*[V(i) for i in ix if i is not None]) if hint else [])]
    self.obligs.append(dict(name=name, goals=goals, hyps=hyps, cands=cands + extra))

  def ensure_shape(self, name, a, dims):
    dims = tuple(S.raw(d) for d in dims)
    ok = len(dims) == len(a.shape) and all(sem.deq(x, y) for x, y in zip(a.shape, dims))
    self.obligs.append(dict(name=name, goals=[ok], hyps=[], cands=[]))

  def ensure_fact(self, name, ok, detail=''):
    """a fact about the traced program decided by evaluation"""
    self.obligs.append(dict(name=name, goals=[bool(ok)], hyps=[], cands=[], detail=detail))

  def lemma(self, name, dims, pred, hint=None):
    """proved as an obligation, then available at given indices"""
    self.ensure(name, dims, pred, hint)
    def use(*ix):
      g = S.raw(pred(*[S.V_(i) for i in ix]))
      rng = T.And(*[T.And(T.le(0, S.raw(i)), T.lt(S.raw(i), S.raw(d))) for i, d in zip(ix, dims)])
      (self.hyps if self.cur is None else self.cur).append(T.Implies(rng, g))
    return use

  def induct(self, name, n, pred, dims=(), optional=False, using=()):
    """pred(t, *ix) for 0 <= t <= n and all ix in dims: base and step become obligations (the step may assume the same ix);
    afterwards available at given (t, *ix).  using: earlier invariants, assumed at t (and t + 1)
    optional: a candidate invariant, dropped when it is not one"""
    t = z3.Int(T.ctx().fresh('t'))
    n = S.raw(n)
    dims = tuple(S.raw(d) for d in dims)
    ix = [z3.Int(T.ctx().fresh(f'ix{j}')) for j in range(len(dims))]
    for v, d in zip(ix, dims):
      T.ctx().fact(v, z3.And(v >= 0, v < T.I(d)))
      T.ctx().memo.setdefault('rng', {})[v.get_id()] = d
    rng = [T.And(T.le(0, v), T.lt(v, d)) for v, d in zip(ix, dims)]
    V_ix = [V(v) for v in ix]
    self.cur = []
    for u in using:
      u(V(0), *V_ix[:u.nd]), u(V(t), *V_ix[:u.nd]), u(V(T.iadd(t, 1)), *V_ix[:u.nd])
    base, step, ih = S.raw(pred(V(0), *V_ix)), S.raw(pred(V(T.iadd(t, 1)), *V_ix)), S.raw(pred(V(t), *V_ix))
    more, self.cur = self.cur, None
    obs = [dict(name=name + '.base', goals=[base], hyps=rng + more, cands=ix),
           dict(name=name + '.step', goals=[step], hyps=rng + more + [t >= 0, t < n, T.B(ih)], cands=ix)]
    if optional:
      from . import solve
      for o in obs:
        if solve.discharge(self.hyps + o['hyps'], o['goals'][0], [], timeout=5, want_model=False)['status'] != 'unsat':
          return lambda *ts: None
    for o in obs:
      self.obligs.append(o)

    def use(k, *jx):
      k = S.raw(k)
      g = T.And(T.le(0, k), T.le(k, n), *[T.And(T.le(0, S.raw(i)), T.lt(S.raw(i), d)) for i, d in zip(jx, dims)])
      (self.hyps if self.cur is None else self.cur).append(T.Implies(g, S.raw(pred(V(k), *jx))))
    use.nd = len(dims)
    return use

  def seq(self, name, init, step):
    """the ghost sequence of integer tuples  s(0) = init,  s(t + 1) = step(s(t))"""
    k = len(init)
    fs = [z3.Function(f'{name}.{j}', z3.IntSort(), z3.IntSort()) for j in range(k)]
    deep, done = [0], set()

    def at(t):
      t = S.raw(t)
      ts = [f(T.I(t)) for f in fs]
      key = (ts[0].get_id(), deep[0] < 1)
      if key not in done and (key[0], True) not in done:
        done.add(key)
        T.ctx().keep.extend(ts)
        f = [z3.Implies(T.I(t) <= 0, z3.And(*[x == T.I(S.raw(v)) for x, v in zip(ts, init)]))]
        if deep[0] < 1:
          deep[0] += 1
          try:
            nx = step(at(V(z3.simplify(T.I(t) - 1))))
            f.append(z3.Implies(T.I(t) >= 1, z3.And(*[x == T.I(S.raw(v)) for x, v in zip(ts, nx)])))
          finally:
            deep[0] -= 1
        for x in ts:
          for g in f:
            T.ctx().fact(x, g)
      return tuple(V(x) for x in ts)
    return at

  def loops(self):
    """the loops of unknown length met so far"""
    return self.ctx.memo.get('loops', [])

  def trusted(self, p):
    """an axiom instance, assumed (reported in the evidence)"""
    (self.hyps if self.cur is None else self.cur).append(S.raw(p))
    self.ntrusted += 1

  def math(self, name, n, pred, kinds=None):
    """a lemma about n arbitrary reals (or ints), proved once, then available for any terms"""
    kinds = kinds or 'f' * n
    vs = []
    for i, k in enumerate(kinds):
      v = z3.Real(T.ctx().fresh(f'm{i}')) if k == 'f' else z3.Int(T.ctx().fresh(f'm{i}'))
      vs.append(V(T.F(v)) if k == 'f' else V(v))
    g = S.raw(pred(*vs))
    self.obligs.append(dict(name='lemma ' + name, goals=[g], hyps=[], cands=[]))

    def use(*xs):
      h = S.raw(pred(*[S.V_(x) for x in xs]))
      fin = T.And(*[S.tof(S.raw(x)).isfin() for x, k in zip(xs, kinds) if k == 'f'])
      (self.hyps if self.cur is None else self.cur).append(T.Implies(fin, h))
    return use


def _literals(jaxpr, out):
  for e in jaxpr.eqns:
    for v in e.invars:
      if hasattr(v, 'val'):
        x = np.asarray(v.val)
        if x.size == 1 and x.dtype.kind in 'fi':
          out.add(float(x.ravel()[0]))
    for p in e.params.values():
      for j in (p if isinstance(p, (tuple, list)) else (p,)):
        j = getattr(j, 'jaxpr', j)
        if hasattr(j, 'eqns'):
          _literals(j, out)


# ------------------------------------------------------------------ concrete
class Con(Base):
  conc = True
  hunt = ()    # constants of the program, when the search for a failing input uses inputs of their magnitude

  def __init__(self, con, prefix, variant, rng, sizes, overrides=None, cache=None):
    super().__init__(con, prefix, variant)
    S.CONC[0] = True
    self.rng = rng
    self.sizes = sizes
    self.d = {n: V(np.asarray(sizes[n])) for n in con.dims if n != '_'}
    self.over = overrides or {}
    self.cache = cache if cache is not None else {}
    self.inputs = {}
    self.checked = 0
    self.lv = []
    self.ncalls = 0
    self.evals = 0

  @property
  def prefix(self):
    return tuple(self.d[p] for p in self.pnames)

  def leaf(self, name, shape, dtype=np.float32, where=None, gen=None, fp=None):
    shape = tuple(int(S.raw(s)) for s in shape)
    base, i = name, 0
    while name in self.inputs:
      i += 1
      name = f'{base}_{i}'
    dt = np.dtype(dtype)
    x = None
    if name in self.over:
      x = np.asarray(self.over[name]).astype(dt)
      if x.shape != shape:
        raise Skip(f'shape {name}')
    ok = False
    for att in range(30):
      if x is None or att:
        if name in self.over:
          raise Skip(name)
        x = np.asarray((gen or default_gen(dt))(self.rng, shape)).astype(dt)
        x = np.broadcast_to(x, shape).copy()
        if len(self.hunt) and dt.kind == 'f' and self.rng.random() < 0.5:
          y = self.rng.choice(self.hunt) * self.rng.uniform(0.9, 2.5, shape) * self.rng.choice(np.array([-1, 1]), shape)
          x = np.where(self.rng.random(shape) < self.rng.choice(np.array([0.3, 1.0])), y, x).astype(dt)
      if where is None:
        ok = True
        break
      xs = x.astype(np.float64) if dt.kind == 'f' else (x.astype(np.int64) if dt.kind in 'iu' else x)
      ix = [V(i) for i in np.indices(shape)] if shape else []
      S.Conc.amb = None
      m = np.broadcast_to(S.raw(where(V(xs), *ix)), shape)
      if np.all(m):
        ok = True
        break
      # redraw the offending entries
      for _ in range(20):
        if np.all(m):
          break
        y = np.broadcast_to(np.asarray((gen or default_gen(dt))(self.rng, shape)).astype(dt), shape)
        x = np.where(m, x, y).astype(dt)
        xs = x.astype(np.float64) if dt.kind == 'f' else (x.astype(np.int64) if dt.kind in 'iu' else x)
        S.Conc.amb = None
        m = np.broadcast_to(S.raw(where(V(xs), *ix)), shape)
        S.Conc.amb = None
      if np.all(m):
        ok = True
        break
      if name in self.over:
        break
    if not ok:
      raise Skip(f'where {name}')
    self.inputs[name] = x
    xs = x.astype(np.float64) if dt.kind == 'f' else (x.astype(np.int64) if dt.kind in 'iu' else x)
    l = Leaf(xs, shape, dt, name)
    l.real = x
    return l

  def key(self, name='rng'):
    return self.leaf(name, (2,), np.uint32, gen=lambda r, s: r.integers(0, 2**31, s))

  def link(self, leaves, pred):
    sh = leaves[0].shape
    ix = [V(i) for i in np.indices(sh)]
    S.Conc.amb = None
    if not np.all(np.broadcast_to(S.raw(pred(*ix)), sh)):
      raise Skip('link')

  def require(self, p):
    if not np.all(S.raw(p)):
      raise Skip('require')

  def hint(self, *ks):
    pass

  def fresh_int(self, name):
    return V(np.asarray(self.rng.integers(0, 3)))

  def call(self, f, *args, warm=True, label=None):
    flat, td = flatten(args)
    xs = [getattr(l, 'real', None) if getattr(l, 'real', None) is not None else np.asarray(l.x).astype(l.dtype) for l in flat]
    self.ncalls += 1
    frames = []
    ot = []
    key = (self.ncalls,)

    def g(w, a):
      if warm:
        f(*jax.tree_util.tree_unflatten(td, w))
      out = _frame(f, jax.tree_util.tree_unflatten(td, a), frames.append)
      fl, t = jax.tree_util.tree_flatten(out)
      ot.append(t)
      return [jnp.asarray(x) for x in fl]
    w = []
    if warm:
      # an earlier call with other values
      w = [np.roll(x, 1, axis=-1) if x.ndim else x for x in xs]
    try:
      if self.con.eager:
        outs = g([jnp.asarray(x) for x in w], [jnp.asarray(x) for x in xs])
        tree = ot[-1]
        fr = list(frames)
      else:
        if key not in self.cache:
          jf = jax.jit(g)
          try:
            outs = jf(w, xs)
          except Exception:  # not traceable: run it eagerly
            jf = lambda w, a: g([jnp.asarray(x) for x in w], [jnp.asarray(x) for x in a])
            frames.clear()
            outs = jf(w, xs)
          self.cache[key] = (jf, ot[-1], list(frames))
        jf, tree, fr = self.cache[key]
        outs = jf(w, xs)
    except Exception as e:
      raise Violated('raises', f'{type(e).__name__}: {str(e)[:600]}') from e
    if not all(fr):
      raise Violated('frame', 'the call modified its arguments')
    res = []
    for o in outs:
      o = np.asarray(o) if not jnp.issubdtype(o.dtype, jax.dtypes.prng_key) else np.asarray(jax.random.key_data(o))
      x = o.astype(np.float64) if o.dtype.kind == 'f' else (o.astype(np.int64) if o.dtype.kind in 'iu' else o)
      l = Leaf(x, o.shape, o.dtype)
      l.real = o
      res.append(l)
    return jax.tree_util.tree_unflatten(tree, res)

  def ensure(self, name, dims, pred, hint=None, cases=None):
    dims = tuple(int(S.raw(d)) for d in dims)
    S.Conc.amb = None
    S.Conc.tol = self.con.tol
    ix = [V(i) for i in np.indices(dims)] if dims else []
    if any(d == 0 for d in dims):
      return
    r = np.broadcast_to(np.asarray(S.raw(pred(*ix))), dims)
    amb = S.Conc.amb
    bad = ~r
    if amb is not None:
      if amb.ndim > len(dims):
        amb = amb.any()
      try:
        bad = bad & ~np.broadcast_to(amb, dims)
      except ValueError:
        bad = bad & ~amb.any()
    self.evals += int(np.prod(dims)) if dims else 1
    if bad.any():
      w = [int(i) for i in np.argwhere(bad)[0]] if dims else []
      raise Violated(name, f'postcondition {name} fails at index {w}')

  def ensure_shape(self, name, a, dims):
    dims = tuple(int(S.raw(d)) for d in dims)
    if tuple(a.shape) != dims:
      raise Violated(name, f'shape {tuple(a.shape)} != {dims}')

  def ensure_fact(self, name, ok, detail=''):
    if not ok:
      raise Violated(name, detail or name)

  def lemma(self, name, dims, pred, hint=None):
    self.ensure(name, dims, pred, hint)
    return lambda *ix: None

  def trusted(self, p):
    pass

  def math(self, name, n, pred, kinds=None):
    return lambda *xs: None

  def paths(self, f, *args, limit=64):
    flat, td = flatten(args)
    xs = [jnp.asarray(l.real) for l in flat]
    self.ncalls += 1
    try:
      o, exc = f(*jax.tree_util.tree_unflatten(td, xs)), None
    except Exception as e:
      o, exc = None, e
    def leaf(o):
      o = np.asarray(o)
      l = Leaf(o.astype(np.float64) if o.dtype.kind == 'f' else (o.astype(np.int64) if o.dtype.kind in 'iu' else o), o.shape, o.dtype)
      l.real = o
      return l
    return [Path(None, 0, [], None if exc else jax.tree_util.tree_map(leaf, o), exc)]

  def induct(self, name, n, pred, dims=(), optional=False, using=()):
    self.ensure(name, (n + 1,) + tuple(dims), pred)
    return lambda *ts: None

  def loops(self):
    return []

  def seq(self, name, init, step):
    vals = [tuple(np.asarray(S.raw(v)) for v in init)]

    def at(t):
      t = np.asarray(S.raw(t))
      while len(vals) <= (t.max() if t.size else 0):
        vals.append(tuple(np.asarray(S.raw(v)) for v in step(tuple(V(x) for x in vals[-1]))))
      return tuple(V(np.stack([v[j] for v in vals])[np.clip(t, 0, None)]) for j in range(len(init)))
    return at


def default_gen(dt):
  if dt.kind == 'b':
    return lambda r, s: r.random(s) < 0.6
  if dt.kind in 'iu':
    return lambda r, s: r.integers(0, 6, s)
  def g(r, s):
    m = r.integers(0, 4)
    if m == 0:
      return r.integers(-4, 5, s) * 0.5
    if m == 1:
      return r.uniform(-3, 3, s)
    if m == 2:
      return r.uniform(-30, 30, s)
    return np.where(r.random(s) < 0.5, r.integers(-2, 3, s) * 0.25, r.uniform(-10, 10, s))
  return g
