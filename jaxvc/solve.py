"""Obligation assembly (cone of axiom instances) and discharge."""
from __future__ import annotations
import os
import subprocess
import tempfile
import time
import z3
from . import terms as T
from . import sem

PI_FACT = z3.And(T.PI > z3.RealVal('3.14159265358'), T.PI < z3.RealVal('3.14159265359'))
MAX_REDS = 60


def _walk(e, seen, out):
  stack = [e]
  while stack:
    x = stack.pop()
    i = x.get_id()
    if i in seen:
      continue
    seen[i] = x
    out.append(x)
    if z3.is_quantifier(x):
      stack.append(x.body())
    else:
      stack.extend(x.children())


def assemble(hyps, goal, cands, extra_facts=(), rounds=2, visit=(), full=True):
  """all assertions whose joint unsatisfiability discharges the goal"""
  c = T.ctx()
  asserts = [T.B(h) for h in hyps if h is not True]
  asserts.append(z3.Not(T.B(goal)))
  asserts.append(PI_FACT)
  asserts += [T.B(f) for f in c.global_facts if f is not True]
  seen, pend = {}, []
  for a in asserts + list(visit):
    _walk(a, seen, pend)
  reds, done_pairs, done_inst = [], set(), set()
  topks = []
  cands = list(cands)
  cand_keys = set(sem._k(k) for k in cands)
  added = set()

  def add(f):
    if f is True or f is None:
      return
    f = T.B(f)
    if z3.is_true(f) or f.get_id() in added:
      return
    added.add(f.get_id())
    c.keep.append(f)
    asserts.append(f)
    _walk(f, seen, pend)

  def drain():
    while pend:
      x = pend.pop()
      i = x.get_id()
      for f in c.facts.get(i, ()):
        add(f)
      r = c.reds.get(i)
      if r is not None and r not in reds:
        if len(reds) > MAX_REDS:
          continue
        reds.append(r)
        for f in r.facts():
          add(f)
        if r.kind in ('argmax', 'argmin'):
          w = r.res
        else:
          w = r.w
        if sem._k(w) not in cand_keys:
          cand_keys.add(sem._k(w))
          cands.append(w)

  drain()
  for rnd in range(rounds):
    cur = list(reds)
    for a in range(len(cur)):
      for b in range(a + 1, len(cur)):
        if (a, b) in done_pairs:
          continue
        done_pairs.add((a, b))
        if not full and (cur[a].kind != cur[b].kind or cur[a].names() != cur[b].names()):
          continue
        add(cur[a].congruence(cur[b]))
    tks = [tk for tk in c.memo.get('topks', []) if tk.apps and any(t.get_id() in seen for _, t in tk.apps.values())]
    for a in range(len(tks)):
      for b in range(a + 1, len(tks)):
        key = ('tk', id(tks[a]), id(tks[b]))
        if key not in done_inst:
          done_inst.add(key)
          add(tks[a].congruence(tks[b], seen))
    drain()
    for tk in tks:
      ap = [(j, t) for j, t in tk.apps.values() if t.get_id() in seen]
      for x in range(len(ap)):
        for y in range(x + 1, len(ap)):
          key = ('pair', id(tk), ap[x][1].get_id(), ap[y][1].get_id())
          if key not in done_inst:
            done_inst.add(key)
            add(tk.pair(*ap[x], *ap[y]))
      for _, t in list(tk.apps.values()):
        if t.get_id() in seen and sem._k(t) not in cand_keys:
          cand_keys.add(sem._k(t))
          cands.append(t)
    drain()
    for r in cur:
      for k in [k for k in cands if full or r.suits(k)][:24]:
        key = (id(r), sem._k(k))
        if key in done_inst:
          continue
        if not full and not r.suits(k):
          continue
        done_inst.add(key)
        add(r.inst(k))
    for tk in c.memo.get('topks', []):
      if tk.apps and any(t.get_id() in seen for _, t in tk.apps.values()):
        for k in list(cands)[:10]:
          key = (id(tk), sem._k(k))
          if key in done_inst:
            continue
          done_inst.add(key)
          add(tk.complete(k, seen))
    drain()
  return asserts


# --------------------------------------------------------------- purification
def purify(asserts):
  """Replace applications of uninterpreted functions by constants (drops congruence: weaker hypotheses)."""
  memo = {}

  def go(e):
    stack = [(e, False)]
    while stack:
      x, ready = stack.pop()
      i = x.get_id()
      if i in memo:
        continue
      if z3.is_quantifier(x):
        raise ValueError
      ch = x.children()
      if not ready and ch:
        stack.append((x, True))
        stack.extend((y, False) for y in ch if y.get_id() not in memo)
        continue
      if not ch:
        memo[i] = x
        continue
      d = x.decl()
      if d.kind() == z3.Z3_OP_UNINTERPRETED:
        memo[i] = z3.Const(f'pur!{i}', x.sort())
      else:
        nch = [memo[y.get_id()] for y in ch]
        memo[i] = x if all(a is b for a, b in zip(nch, ch)) else (
            z3.And(*nch) if z3.is_and(x) else z3.Or(*nch) if z3.is_or(x) else
            _sum(nch) if z3.is_add(x) else _mul(nch) if z3.is_mul(x) else
            z3.Distinct(*nch) if z3.is_distinct(x) else d(*nch))
    return memo[e.get_id()]
  return [go(a) for a in asserts]


def _sum(xs):
  return z3.Sum(xs)


def _mul(xs):
  o = xs[0]
  for x in xs[1:]:
    o = o * x
  return o


def smt2(asserts, logic=None, tail='(check-sat)'):
  s = z3.Solver()
  for a in asserts:
    s.add(a)
  txt = s.to_smt2()
  txt = txt.replace('(check-sat)\n', '')
  return txt + tail + '\n'


class Job:
  def __init__(self, cmd, text):
    self.f = tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False)
    self.f.write(text)
    self.f.close()
    self.t0 = time.time()
    self.p = subprocess.Popen(cmd + [self.f.name], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)

  def poll(self):
    return self.p.poll()

  def result(self):
    out = self.p.stdout.read().strip().split('\n')[0] if self.p.stdout else ''
    return out

  def kill(self):
    if self.p.poll() is None:
      self.p.kill()
      self.p.wait()
    if self.p.stdout:
      self.p.stdout.close()
    try:
      os.unlink(self.f.name)
    except OSError:
      pass


def portfolio(asserts, timeout):
  """z3-new / cvc5 / z3-new on the purified formula with nlsat"""
  full = smt2(asserts)
  jobs = [('z3', Job(['z3-new', f'-T:{int(timeout)}'], full)),
          ('cvc5', Job(['cvc5', f'--tlimit={int(timeout * 1000)}', '--nl-ext-tplanes'], '(set-logic ALL)\n' + full))]
  try:
    pur = purify(asserts)
    jobs.append(('z3-nlsat', Job(['z3-new', f'-T:{int(timeout)}'], smt2(
        pur, tail='(check-sat-using (then simplify solve-eqs elim-term-ite simplify propagate-values solve-eqs purify-arith (or-else (try-for qfnra-nlsat %d) smt)))' % int(timeout * 1000)))))
  except ValueError:
    pass
  t0 = time.time()
  res, by = 'unknown', ''
  alive = dict(jobs)
  try:
    while alive and time.time() - t0 < timeout + 2:
      for n, j in list(alive.items()):
        if j.poll() is not None:
          r = j.result()
          del alive[n]
          j.kill()
          if r == 'unsat':
            return 'unsat', n
          if r == 'sat' and n != 'z3-nlsat':
            res, by = 'sat', n
            return res, by
      time.sleep(0.01)
  finally:
    for _, j in jobs:
      j.kill()
  return res, by


def _timed(s, ms):
  s.set('timeout', int(ms))
  return s.check()


_CONG = ('sin', 'cos', 'sqrt', 'atan2', 'tan', 'exp', 'log', 'tanh', 'acos', 'asin', 'atan', 'f32int')


def path_condition(g, limit=8):
  """conjuncts of the negated goal (they are asserted, so side obligations may use them)"""
  out = []

  def go(x, neg):
    if z3.is_not(x):
      go(x.arg(0), not neg)
    elif (neg and z3.is_or(x)) or (not neg and z3.is_and(x)):
      for y in x.children():
        go(y, neg)
    elif neg and z3.is_implies(x):
      go(x.arg(0), False)
      go(x.arg(1), True)
    elif z3.is_eq(x) and z3.is_real(x.arg(0)):
      pass
    else:
      out.append(z3.Not(x) if neg else x)
  go(g, True)
  return out[:limit]


def ctx_simplify(hyps, g, path, budget=8.0, others=(), cands=(), rounds=0, deep=False):
  """Replace conditions inside the goal that the path condition decides (each decision is a side proof)."""
  c = T.ctx()
  t0 = time.time()
  hyps = list(hyps) + list(path)
  base = assemble(hyps, False, list(cands), rounds=rounds, visit=[g])
  s = z3.Solver()
  s.add(*base)
  sl = None
  if deep:
    sl = z3.Solver()
    sl.add(*lin_abs([z3.substitute(a, (T.PI, PI_VAL)) for a in base]))
  pk = set(x.get_id() for x in path)
  decided = {}
  memo = {}
  count = [0]

  def decide(b):
    b = z3.simplify(b)
    if z3.is_true(b) or z3.is_false(b):
      return b
    k = b.get_id()
    if k in decided:
      return decided[k]
    r = b
    c.keep.append(b)
    if deep and time.time() - t0 < budget:
      for val, t in ((z3.BoolVal(True), z3.Not(b)), (z3.BoolVal(False), b)):
        sl.push()
        sl.add(*lin_abs([z3.substitute(t, (T.PI, PI_VAL))]))
        q = _timed(sl, 300)
        sl.pop()
        if q == z3.unsat:
          decided[k] = val
          return val
    if time.time() - t0 < budget and count[0] < 120 and not deep:
      count[0] += 1
      for val, t in ((z3.BoolVal(True), z3.Not(b)), (z3.BoolVal(False), b)):
        s.push()
        s.add(t)
        q = _timed(s, 120)
        if q == z3.unknown:
          try:
            ps = z3.Then('simplify', 'solve-eqs', 'elim-term-ite', 'simplify', 'solve-eqs', 'purify-arith', z3.TryFor('qfnra-nlsat', 150)).solver()
            ps.add(*purify(base + [t]))
            q = ps.check()
          except (ValueError, z3.Z3Exception):
            pass
        s.pop()
        if q == z3.unsat:
          r = val
          break
    decided[k] = r
    return r

  def atoms(b):
    """simplify a boolean structure atom by atom"""
    if b.get_id() in memo:
      return memo[b.get_id()]
    if z3.is_true(b) or z3.is_false(b):
      return b
    if z3.is_and(b) or z3.is_or(b) or z3.is_not(b) or z3.is_implies(b) or (z3.is_eq(b) and z3.is_bool(b.arg(0))) or (z3.is_app_of(b, z3.Z3_OP_ITE)):
      ch = [atoms(x) if z3.is_bool(x) else val(x) for x in b.children()]
      r = z3.simplify(_rebuild(b, ch))
      if deep and not (z3.is_true(r) or z3.is_false(r)):
        r = decide(r)
    else:
      r = val(b)
      if z3.is_bool(r):
        r = decide(r)
    c.keep.append(b)
    memo[b.get_id()] = r
    return r

  def val(e):
    if e.get_id() in memo:
      return memo[e.get_id()]
    if z3.is_quantifier(e) or not e.children():
      return e
    if z3.is_app_of(e, z3.Z3_OP_ITE):
      cnd = atoms(e.arg(0))
      if z3.is_true(cnd):
        r = val(e.arg(1))
      elif z3.is_false(cnd):
        r = val(e.arg(2))
      else:
        r = z3.If(cnd, val(e.arg(1)), val(e.arg(2)))
    elif e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
      r = e
    else:
      ch = [atoms(x) if z3.is_bool(x) else val(x) for x in e.children()]
      r = _rebuild(e, ch) if any(not a.eq(b) for a, b in zip(ch, e.children())) else e
    c.keep += [e, r]
    memo[e.get_id()] = r
    return r
  tmemo = {}

  def terms_only(b):
    """rewrite the arithmetic terms, leave the atoms"""
    k = b.get_id()
    if k not in tmemo:
      tmemo[k] = _terms_only(b)
      c.keep += [b, tmemo[k]]
    return tmemo[k]

  def _terms_only(b):
    if z3.is_quantifier(b) or not b.children():
      return b
    if z3.is_and(b) or z3.is_or(b) or z3.is_not(b) or z3.is_implies(b) or (z3.is_eq(b) and z3.is_bool(b.arg(0))):
      ch = [terms_only(x) for x in b.children()]
    elif z3.is_app_of(b, z3.Z3_OP_ITE):
      return b
    else:
      ch = [x if z3.is_bool(x) else val(x) for x in b.children()]
    return _rebuild(b, ch) if any(not a.eq(d) for a, d in zip(ch, b.children())) else b

  for p in path:
    q = p.arg(0) if z3.is_not(p) else p
    decided[z3.simplify(q).get_id()] = z3.BoolVal(not z3.is_not(p))
  if z3.is_eq(g) and not z3.is_bool(g.arg(0)):
    r = val(g)
  else:
    r = z3.simplify(atoms(g))
  if others:
    return r, [terms_only(x) for x in others]
  return r


def _rebuild(x, nch):
  d = x.decl()
  return (z3.And(*nch) if z3.is_and(x) else z3.Or(*nch) if z3.is_or(x) else _sum(nch) if z3.is_add(x) else
          _mul(nch) if z3.is_mul(x) else z3.Distinct(*nch) if z3.is_distinct(x) else d(*nch))


def congruences(asserts, hyps, budget=6.0, path=()):
  """Equal arguments => equal applications, the argument equality being proved as a side obligation."""
  c = T.ctx()
  hyps = list(hyps) + list(path)
  c.keep += list(path)
  pk = tuple(x.get_id() for x in path)
  seen, terms = {}, []
  for a in asserts:
    _walk(a, seen, terms)
  apps = {}
  rems = c.memo.get('rems', {})
  for t in terms:
    if not z3.is_app(t):
      continue
    n = t.decl().name()
    if n in _CONG and t.num_args():
      apps.setdefault(n, []).append((t, t.children()))
    elif t.decl().kind() == z3.Z3_OP_DIV and not z3.is_rational_value(t.arg(1)):
      apps.setdefault('div', []).append((t, t.children()))
    elif t.get_id() in rems:
      r, ar, br = rems[t.get_id()]
      apps.setdefault('rem', []).append((r, [ar, br]))
  out = []
  t0 = time.time()
  memo = c.memo.setdefault('cong', {})
  # innermost first
  order = ['f32int', 'sqrt', 'div', 'rem', 'atan2', 'exp', 'log', 'tanh', 'acos', 'asin', 'atan', 'tan', 'sin', 'cos']
  for n in order:
    xs = apps.get(n, [])
    if len(xs) > 14:
      xs = xs[:14]
    for i in range(len(xs)):
      for j in range(i + 1, len(xs)):
        (t, ta), (u, ua) = xs[i], xs[j]
        if n == 'cos':
          key = ('sin', ta[0].get_id(), ua[0].get_id())
        else:
          key = (n,) + tuple(x.get_id() for x in ta + ua)
        if memo.get(key) in (None, 'no') and pk:
          key = key + pk
        if key not in memo:
          if time.time() - t0 > budget:
            continue
          memo[key] = _rel(ta, ua, hyps, out, n)
          c.keep += ta + ua
        rel = memo[key]
        if rel == 'eq':
          out.append(t == u)
        elif rel == 'neg' and n in ('sin', 'tan'):
          out.append(t == -u)
        elif rel == 'neg' and n == 'cos':
          out.append(t == u)
  return out


def _rel(ta, ua, hyps, known, n):
  def quick(g):
    g = z3.simplify(g)
    if z3.is_true(g):
      return True
    if z3.is_false(g):
      return False
    a = assemble(hyps, g, [], rounds=0) + known
    s = z3.Solver()
    s.add(*a)
    if _timed(s, 400) == z3.unsat:
      return True
    if s.reason_unknown() == '' :
      return False
    try:
      ps = z3.Then('simplify', 'solve-eqs', 'elim-term-ite', 'simplify', 'solve-eqs', 'purify-arith', z3.TryFor('qfnra-nlsat', 600)).solver()
      ps.add(*purify(a))
      return ps.check() == z3.unsat
    except (ValueError, z3.Z3Exception):
      return False
  if quick(z3.And(*[x == y for x, y in zip(ta, ua)])):
    return 'eq'
  if n in ('sin', 'cos', 'tan') and quick(ta[0] == -ua[0]):
    return 'neg'
  return 'no'


def lin_abs(asserts):
  """products of unknowns become opaque constants keyed by their canonical factors (weaker hypotheses): linear arithmetic"""
  c = T.ctx()
  st = c.memo.setdefault('linabs', dict(memo={}, prods={}, simp={}))
  memo, prods, simp = st['memo'], st['prods'], st['simp']

  def mono(key, sort):
    if key not in prods:
      prods[key] = z3.Const(f'prod!{len(prods)}', sort)
    return prods[key]

  def isnum(x):
    return z3.is_rational_value(x) or z3.is_int_value(x)

  def go(e):
    i = e.get_id()
    if i in memo:
      return memo[i]
    if z3.is_quantifier(e):
      raise ValueError
    ch = e.children()
    if not ch:
      r = e
    elif z3.is_mul(e) or (e.decl().kind() == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and ch[1].as_fraction().denominator == 1 and 0 < ch[1].as_fraction() < 9):
      num, sym, terms = [], [], {}
      stack = [(e, 1)]
      while stack:
        x, n = stack.pop()
        if z3.is_mul(x):
          stack.extend((y, n) for y in x.children())
        elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_POWER and z3.is_rational_value(x.arg(1)) and x.arg(1).as_fraction().denominator == 1 and 0 < x.arg(1).as_fraction() < 9:
          stack.append((x.arg(0), n * int(x.arg(1).as_fraction())))
        elif isnum(x):
          num += [x] * n
        else:
          y = norm(x)
          if isnum(y):
            num += [y] * n
          else:
            c.keep.append(y)
            terms[y.get_id()] = y
            sym += [y.get_id()] * n
            one = y
      if not sym:
        r = _mul(num)
      elif len(sym) == 1:
        r = _mul(num + [one])
      else:
        r = _mul(num + [mono(('*',) + tuple(sorted(sym)), e.sort())])
        st.setdefault('fac', {}).update(terms)
    else:
      nch = [norm(x) if x.sort_kind() in (z3.Z3_REAL_SORT, z3.Z3_INT_SORT) else go(x) for x in ch] if not (z3.is_add(e)) else [go(x) for x in ch]
      if e.decl().kind() in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_REM, z3.Z3_OP_POWER) and not (isnum(nch[1])):
        c.keep.extend(nch)
        r = mono((e.decl().kind(), nch[0].get_id(), nch[1].get_id()), e.sort())
      elif all(x.eq(y) for x, y in zip(ch, nch)):
        r = e
      else:
        r = _rebuild(e, nch)
    c.keep += [e, r]
    memo[i] = r
    return r

  def norm(x):
    """canonical form of a term: expanded, sorted, products opaque"""
    i = x.get_id()
    if i not in simp:
      y = z3.simplify(x, som=True, sort_sums=True)
      z = z3.simplify(go(y), sort_sums=True)
      c.keep += [x, y, z]
      simp[i] = z
    return simp[i]

  out = []
  for a in asserts:
    i = a.get_id()
    if ('a', i) not in simp:
      y = z3.simplify(a, som=True, sort_sums=True)
      c.keep += [a, y]
      simp[('a', i)] = go(y)
      c.keep.append(simp[('a', i)])
    out.append(simp[('a', i)])
  return out


def prod_congruence(asserts, limit=300):
  """products that differ in one factor, an application of one function, are equal where those applications are"""
  st = T.ctx().memo['linabs']
  fac, prods = st.get('fac', {}), st['prods']
  seen, out = {}, []
  for a in asserts:
    _walk(a, seen, out)
  byhole = {}
  for key, p in prods.items():
    if key[0] != '*' or p.get_id() not in seen:
      continue
    fs = key[1:]
    for i in range(len(fs)):
      if i and fs[i] == fs[i - 1]:
        continue
      f = fac.get(fs[i])
      if f is None or not z3.is_app(f) or not f.num_args() or f.decl().kind() != z3.Z3_OP_UNINTERPRETED:
        continue
      byhole.setdefault((fs[:i] + fs[i + 1:], f.decl().get_id()), []).append((f, p))
  facts = []
  for l in byhole.values():
    for i in range(len(l)):
      for j in range(i):
        if len(facts) < limit:
          facts.append(z3.Implies(l[i][0] == l[j][0], l[i][1] == l[j][1]))
  return facts


def linear(asserts, ms):
  try:
    asserts = lin_abs([z3.substitute(a, (T.PI, PI_VAL)) for a in asserts])
  except (ValueError, z3.Z3Exception):
    return False
  s = z3.Solver()
  s.add(*asserts)
  r = _timed(s, ms)
  if r == z3.sat:
    pc = prod_congruence(asserts)
    if pc:
      s.add(*pc)
      r = _timed(s, ms)
  return r == z3.unsat


def nlsat(asserts, ms):
  try:
    ps = z3.Then('simplify', 'solve-eqs', 'elim-term-ite', 'simplify', 'solve-eqs', 'purify-arith', z3.TryFor('qfnra-nlsat', int(ms))).solver()
    ps.add(*purify(asserts))
    return ps.check() == z3.unsat
  except (ValueError, z3.Z3Exception):
    return False


PI_VAL = z3.RealVal('3.141592653589793')


def has_pi(asserts):
  seen, out = {}, []
  for a in asserts:
    if not a.eq(PI_FACT):
      _walk(a, seen, out)
  return any(x.eq(T.PI) for x in out)


def pi_const(asserts, ms):
  """the same obligation with pi read as its double precision value: removes products of pi and unknowns"""
  s = z3.Solver()
  s.add(*[z3.substitute(a, (T.PI, PI_VAL)) for a in asserts])
  return _timed(s, ms) == z3.unsat


def discharge(hyps, goal, cands, quick_ms=1500, timeout=20, want_model=True, deep=0):
  """returns dict(status= unsat|sat|unknown, by, time, model)"""
  t0 = time.time()
  if goal is True:
    return dict(status='unsat', by='syntactic', time=0.0)
  g = T.B(goal)
  gs = z3.simplify(g)
  if z3.is_true(gs):
    return dict(status='unsat', by='z3-simplify', time=time.time() - t0)
  if deep and path_condition(g):
    # long cascades of selections: decide every condition under the case at hand before anything else
    g2 = ctx_simplify(hyps, g, path_condition(g, 24), cands=cands, rounds=0, deep=True, budget=deep)
    T.ctx().keep.append(g2)
    if z3.is_true(g2):
      return dict(status='unsat', by='z3-linear', time=time.time() - t0)
    s = z3.Solver()
    s.add(*assemble(list(hyps) + path_condition(g, 24), g2, cands, rounds=0))
    if _timed(s, quick_ms) == z3.unsat:
      return dict(status='unsat', by='z3-ctx', time=time.time() - t0)
  last = None
  # stage 1: without reduction instances / with them
  for rounds, full in ((0, False), (1, False), (2, False), (2, True)):
    asserts = assemble(hyps, g, cands, rounds=rounds, full=full)
    if last is not None and len(asserts) == last:
      continue
    last = len(asserts)
    if linear(asserts, quick_ms):
      return dict(status='unsat', by='z3-linear', time=time.time() - t0)
    s = z3.Solver()
    s.add(*asserts)
    r = _timed(s, quick_ms if rounds else quick_ms / 2)
    if r == z3.unsat:
      return dict(status='unsat', by='z3', time=time.time() - t0)
  if r == z3.unknown:
    if nlsat(asserts, 500):
      return dict(status='unsat', by='z3-nlsat', time=time.time() - t0)
    if has_pi(asserts) and pi_const(asserts, 700):
      return dict(status='unsat', by='z3-pi', time=time.time() - t0)
  if r == z3.unknown or r == z3.sat:
    cg = congruences(asserts, hyps, path=path_condition(g))
    if cg:
      asserts = asserts + cg
      s = z3.Solver()
      s.add(*asserts)
      r = _timed(s, quick_ms)
      if r == z3.unsat:
        return dict(status='unsat', by='z3+congruence', time=time.time() - t0)
  if nlsat(asserts, quick_ms):
    return dict(status='unsat', by='z3-nlsat', time=time.time() - t0)
  model = s.model() if r == z3.sat else None
  if r != z3.sat:
    path = path_condition(g)
    if path:
      g2, others = ctx_simplify(hyps, g, path, others=asserts)
      if z3.is_true(g2):
        return dict(status='unsat', by='z3-ctx', time=time.time() - t0)
      c = T.ctx()
      c.keep.append(g2)
      h2 = list(hyps) + list(path)
      a2 = assemble(h2, g2, cands, rounds=1)
      a2 += congruences(a2, h2)
      s2 = z3.Solver()
      s2.add(*a2)
      if _timed(s2, quick_ms) == z3.unsat:
        return dict(status='unsat', by='z3-ctx', time=time.time() - t0)
      if nlsat(a2, quick_ms):
        return dict(status='unsat', by='z3-ctx-nlsat', time=time.time() - t0)
      if has_pi(a2) and pi_const(a2, 2 * quick_ms):
        return dict(status='unsat', by='z3-ctx-pi', time=time.time() - t0)
      if linear(a2 + others, 2 * quick_ms):
        return dict(status='unsat', by='z3-linear', time=time.time() - t0)
      asserts = asserts + a2
  if r == z3.sat:
    return dict(status='sat', by='z3', time=time.time() - t0, model=model, asserts=asserts)
  st, by = portfolio(asserts, timeout)
  return dict(status=st, by=by, time=time.time() - t0, model=None, asserts=asserts)
