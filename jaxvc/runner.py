"""Runs the contracts of one property: proves, replays, reports."""
from __future__ import annotations
import dataclasses
import importlib
import ctypes
import json
import multiprocessing as mp
import os
import pkgutil
import random
import signal
import sys
import time
import traceback
import numpy as np
import z3
import jax
from . import terms as T
from . import sem
from . import spec as S
from . import solve
from . import modular
from . import contract as contract_mod
from .contract import CONTRACTS, Con, Sym, Skip, Violated, TraceError, Leaf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load_contracts(only=None):
  """imports the contract files that mention the property (and what they import)"""
  import contracts
  for m in pkgutil.iter_modules(contracts.__path__):
    if m.name.startswith('c_'):
      src = open(os.path.join(contracts.__path__[0], m.name + '.py')).read()
      if only is None or f"'{only}'" in src:
        importlib.import_module('contracts.' + m.name)


def instances(prop):
  out = []
  for c in CONTRACTS:
    if c.prop != prop:
      continue
    for p in c.prefixes:
      for v in c.variants:
        if p or v.get('t') != 'scalar':  # a scalar timestep for a whole batch
          out.append((c, p, v))
  return out


def iname(c, p, v):
  s = c.name
  if p:
    s += '<' + ','.join(p) + '>'
  if v:
    s += '{' + ','.join(f'{k}={x}' for k, x in v.items()) + '}'
  return s


class Timeout(Exception):
  pass


CODE = os.path.join(os.path.abspath(os.environ.get('VERIF_REPO', '/repo')), 'waymax') + os.sep


def _alarm(*a):
  raise Timeout()


def deadline(s):
  """Timeout after s seconds and again every two seconds (a Timeout raised inside a destructor is swallowed)"""
  signal.setitimer(signal.ITIMER_REAL, max(s, 0), 2.0 if s else 0)


def baseline():
  try:
    return json.load(open(os.path.join(VERIF, 'baseline.json')))
  except OSError:
    return {}


# ------------------------------------------------------------------ concrete runs
def sizes_for(con, r, small=False):
  for _ in range(200):
    out = {}
    for n, b in con.dims.items():
      if n == '_':
        continue
      lo, hi = b[0], b[1]
      out[n] = int(r.integers(lo, hi + 1)) if not small or r.random() < 0.5 else lo
    if all(eval(e, {}, dict(out)) for e in con.dims.get('_', ())):
      return out
  raise ValueError('no sizes satisfy the dimension constraints')


def run_conc(con, p, v, seed, nshapes, nsamples, budget, overrides=None, sizes=None, hunt=()):
  """returns (evaluations, violation | None, stats)"""
  t0 = time.time()
  stats = dict(runs=0, skipped=0, checks=0, errors=[])
  r0 = np.random.default_rng(seed)
  seen = []
  for sh in range(nshapes):
    r = np.random.default_rng([seed, sh])
    sz = sizes or sizes_for(con, r, small=sh % 2 == 1)
    if sz in seen and con.dims:
      sz = sizes_for(con, r)
    seen.append(sz)
    cache = {}
    for k in range(nsamples):
      if time.time() - t0 > budget:
        return stats, None
      rr = np.random.default_rng([seed, sh, k])
      c = Con(con, p, v, rr, sz, overrides, cache)
      c.hunt = hunt
      try:
        con.fn(c)
        stats['runs'] += 1
        stats['checks'] += c.evals
      except Skip:
        stats['skipped'] += 1
      except Violated as e:
        stats['runs'] += 1
        return stats, dict(what=e.what, detail=e.detail, sizes=sz, inputs={n: (str(x.dtype), x.tolist()) for n, x in c.inputs.items()},
                           prefix=list(p), variant={k: str(x) for k, x in v.items()}, seed=[seed, sh, k])
      except (Timeout, T.Unsupported, TraceError):
        raise
      except Exception as e:  # raised inside the code under contract, by a call the contract makes outside c.call
        if not any(os.path.abspath(f.filename).startswith(CODE) for f in traceback.extract_tb(e.__traceback__)):
          raise
        stats['runs'] += 1
        return stats, dict(what='raises', detail=f'{type(e).__name__}: {str(e)[:600]} {traceback.format_exc()[-600:]}', sizes=sz,
                           inputs={n: (str(x.dtype), x.tolist()) for n, x in c.inputs.items()}, prefix=list(p), variant={k: str(x) for k, x in v.items()}, seed=[seed, sh, k])
      finally:
        S.CONC[0] = False
      if overrides is not None:
        return stats, None
      if not c.inputs:
        return stats, None
  return stats, None


def model_inputs(c, model, asserts_solver):
  """concrete leaf values from a model with bounded dims"""
  sizes = {}
  for n in c.con.dims:
    if n == '_':
      continue
    if n in c.fixed:
      sizes[n] = c.fixed[n]
      continue
    sizes[n] = model.eval(sem.dimvar(n), model_completion=True).as_long()
  over = {}
  for l in c.leaves:
    sh = []
    for s in l.shape:
      sh.append(s if isinstance(s, int) else model.eval(s, model_completion=True).as_long())
    if int(np.prod(sh)) > 20000:
      return None, None
    dt = np.dtype(l.jdtype)
    arr = np.zeros(sh, dt)
    for ix in np.ndindex(*sh):
      t = l.uf(*[z3.IntVal(i) for i in ix]) if sh else l.uf
      val = model.eval(t, model_completion=True)
      if dt.kind == 'b':
        arr[ix] = z3.is_true(val)
      elif dt.kind in 'iu':
        arr[ix] = np.array(val.as_long()).astype(dt)
      else:
        if z3.is_algebraic_value(val):
          val = val.approx(20)
        arr[ix] = float(val.as_fraction())
    over[l.name] = arr
  return sizes, over


# ------------------------------------------------------------------ one instance
def degenerate(con, cn, diffs):
  """the contract at the sizes for which a comparison of dimensions in the traced code, taken for False, holds"""
  out = []
  for d in diffs:
    hit = False
    for n, b in cn.dims.items():
      if n == '_' or b[0] == b[1]:
        continue
      for k in range(b[0], b[0] + 6):
        if str(d) in (f'{n} - {k}', f'- {n} + {k}', f'-1*{n} + {k}') or k == 0 and str(d) in (n, f'- {n}', f'-1*{n}'):
          hit = True
          out.append(dataclasses.replace(con, dims={**cn.dims, n: (k, k)}))
    if not hit and not outside(cn, d):
      raise T.Unsupported(f'comparison of dimensions: {d} == 0')
  return out


def outside(cn, d):
  """the sizes allowed by the contract exclude d == 0"""
  for decided in (lambda: d >= 1, lambda: d <= -1):
    try:
      if decided():
        return True
    except Exception:   # JAX cannot tell from the constraints on the sizes
      pass
  s = str(d)
  for n, b in cn.dims.items():
    if n != '_' and b[0] > 0 and any(s in (f'{n} - {k}', f'- {n} + {k}', f'-1*{n} + {k}', n) for k in range(b[0])):
      return True
  return False


def prove(cn, c, tag, res, failed, thorough):
  for o in c.obligs:
    st = dict(name=o['name'] + tag, status='unsat', by=set(), time=0.0, pieces=len(o['goals']))
    for g in o['goals']:
      h = o.get('own', c.hyps[:o['nh']]) + o['hyps']
      d = solve.discharge(h, g, list(o['cands']) + c.cands, timeout=cn.timeout * (3 if thorough else 1), deep=cn.deep)
      st['time'] += d['time']
      st['by'].add(d['by'])
      if d['status'] != 'unsat':
        st['status'] = d['status']
        failed.append((dict(o, name=o['name'] + tag, con=cn, c=c), g, d, h))
        if d['status'] == 'sat' or len(failed) > 3:
          break
    st['by'] = sorted(st['by'])
    st['time'] = round(st['time'], 3)
    res['obligations'].append(st)
    if len(failed) > 5:
      return


def run_instance(con, p, v, tier, seed, budget=240, symbolic=True):
  t0 = time.time()
  res = dict(name=iname(con, p, v), target=con.target, obligations=[], conc=None, violation=None, status='', prims={}, note=con.bounded_note)
  thorough = tier == 'thorough'
  failed = []
  sym_err = None
  c = None
  trace_failed = not symbolic
  if con.sym and not symbolic:
    sym_err = 'the symbolic run did not end'
  if con.sym and symbolic:
    subst = modular.active(con.modular)
    subst.__enter__()
    deadline(budget)
    try:
      todo, done, codes = [con], [con], []
      while todo:
        cn = todo.pop(0)
        tag = '' if cn is con else '@' + ','.join(f'{n}={b[0]}' for n, b in cn.dims.items() if n != '_' and b[0] == b[1] and b != con.dims[n])
        try:
          c = None
          c = Sym(cn, p, v)
          cn.fn(c)
        except contract_mod.Excluded:
          continue
        except TraceError as e:
          if cn is not con or c is None or not c.pyused:
            raise
          # a size used as a number where only numbers will do (say, an index): these sizes one by one, bounded
          if not all(n in con.dims for n in c.pyused):
            raise
          res['fixed_sizes'] = f'the code does not trace at symbolic sizes ({str(e)[:120]}); sizes of {sorted(c.pyused)} fixed'
          for k in range(3):
            todo.append(dataclasses.replace(con, dims={n: (b if n not in c.pyused else (b[0] + k,) * 2) for n, b in con.dims.items()}))
          done += todo
          continue
        codes.append(c.code)
        c.code = [h for k in codes for h in k]
        for k in degenerate(con, cn, list(contract_mod.DIM_EQ)):
          if k.dims not in [x.dims for x in done]:
            done.append(k)
            todo.append(k)
        if len(done) > 8:
          raise T.Unsupported('too many comparisons of dimensions')
        if cn is con or not res['prims']:
          res['prims'] = c.prims
          res['remarks'] = c.__dict__.get('remarks', {})
        prove(cn, c, tag, res, failed, thorough)
        if len(failed) > 5:
          break
      # vacuity: the preconditions are satisfiable
      s = z3.Solver()
      s.set('timeout', 3000)
      s.add(*[T.B(h) for h in (c.hyps if c else [])])
      vac = s.check()
      if vac == z3.unsat:
        raise T.Unsupported('vacuous precondition')
      res['vacuity'] = str(vac)
    except (T.Unsupported, TraceError, z3.Z3Exception, RecursionError, AssertionError, NotImplementedError, TypeError, KeyError, IndexError, AttributeError, ValueError, Timeout, ctypes.ArgumentError) as e:
      deadline(0)
      trace_failed = isinstance(e, (TraceError, AttributeError, TypeError, KeyError, IndexError, ValueError, NotImplementedError, AssertionError))
      sym_err = f'{type(e).__name__}: {str(e)[:400]}'
      if not isinstance(e, (T.Unsupported, TraceError, Timeout)):
        sym_err += traceback.format_exc()[-600:]
    finally:
      deadline(0)
      S.CONC[0] = False
      sem.SCAN_HOOK[0] = None
      subst.__exit__(None, None, None)
  res['code'] = c.code if c is not None else []
  res['trace_failed'] = trace_failed
  res['sym_err'] = sym_err
  res['sym_s'] = round(time.time() - t0, 2)
  # replay of counterexamples
  viol = None
  left = 200 if not thorough else 900
  deadline(left)
  try:
    viol = search(con, p, v, c, failed, res, sym_err, thorough, seed)
  except Timeout:
    res['conc_err'] = 'the search for failing inputs ran out of time'
  finally:
    deadline(0)
  res['violation'] = viol
  if viol:
    res['status'] = 'violated'
    if failed:
      viol['obligation'] = failed[0][0]['name']
  elif any(d['status'] == 'sat' for _, _, d, _ in failed):
    # with callees replaced by unknown functions a failure shows only that the replacement does not fit (say, inlined code)
    res['status'] = 'unknown' if con.modular else 'failed'
    o, g, d, h = [f for f in failed if f[2]['status'] == 'sat'][0]
    res['failed'] = dict(obligation=o['name'], by=d['by'], goal=str(T.B(g))[:1500], smt2=solve.smt2(d['asserts'])[:200000])
  elif failed:
    res['status'] = 'unknown'
    res['failed'] = dict(obligation=failed[0][0]['name'], by='timeout', goal=str(T.B(failed[0][1]))[:1500])
  elif sym_err:
    res['status'] = 'unsupported'
  elif not con.sym or con.bounded_note or res.get('fixed_sizes'):
    res['status'] = 'bounded'
    res['note'] = res['note'] or res.get('fixed_sizes', '')
  else:
    res['status'] = 'proved'
  if con.internal and res['status'] != 'proved':
    res.update(status='internal', violation=None, failed=None, note='the private helper changed; the contracts on its callers decide the property')
  res['wall'] = round(time.time() - t0, 2)
  return res


def search(con, p, v, c, failed, res, sym_err, thorough, seed):
  """a failing input: the verifier's counterexample replayed, or a run of the real code against the contract"""
  viol = None
  if failed and con.conc:
    for o, g, d, h in failed[:4]:
      if d['status'] != 'sat':
        continue
      try:
        viol = replay_model(o['con'], p, v, o['c'], o, g, d, h)
      except Exception as e:  # replay machinery never decides anything by failing
        res.setdefault('replay_err', []).append(f'{type(e).__name__}: {e}'[:300])
      if viol:
        viol['origin'] = 'counterexample of the verifier, replayed on the real code'
        break
  undecided = bool(failed) or sym_err is not None or not con.sym
  if viol is None and con.conc:
    if undecided:
      ns, nk, bud = (4, 60, 60) if not thorough else (8, 200, 200)
      if not con.sym:
        ns, nk, bud = con.shapes, con.samples, 60
        if thorough:
          ns, nk, bud = 3 * ns, 4 * nk, 300
    else:
      ns, nk, bud = (con.shapes, con.samples, 30) if not thorough else (4, 4 * con.samples, 120)
    T.set_ctx(T.Ctx())
    try:
      stats, viol = run_conc(con, p, v, seed, ns, nk, bud)
      if viol:
        viol['origin'] = 'run of the real code against the contract'
      res['conc'] = stats
      big = sorted(x for x in {abs(x) for x in getattr(c, 'literals', ())} if 4 < x < 1e6)
      if viol is None and con.sym and big and (os.environ.get('VERIF_HUNT') or undecided and baseline().get(con.prop, {}).get(res['name'], [None])[:len(res['code'])] != res['code']):
        _, viol = run_conc(con, p, v, seed + 1, 3, 40, 40, hunt=np.array(big))
        if viol:
          viol['origin'] = 'run of the real code against the contract'
    except Timeout:
      raise
    except Exception as e:
      res['conc_err'] = f'{type(e).__name__}: {e} {traceback.format_exc()[-800:]}'
  return viol


def replay_model(con, p, v, c, o, g, d, h):
  T.set_ctx(c.ctx)
  cands = []
  s = z3.Solver()
  s.add(*d['asserts'])
  s.set('timeout', 4000)
  for bound in (3, 6):
    s.push()
    for n in con.dims:
      if n != '_':
        s.add(sem.dimvar(n) <= max(bound, con.dims[n][0]))
    if s.check() == z3.sat:
      cands.append(s.model())
      s.pop()
      break
    s.pop()
  if d.get('model') is not None:
    cands.append(d['model'])
  for m in cands:
    sizes, over = model_inputs(c, m, s)
    if over is None:
      continue
    _, viol = run_conc(con, p, v, 0, 1, 1, 60, overrides=over, sizes=sizes)
    if viol:
      return viol
  return None


# ------------------------------------------------------------------ driver
def _child(conn, idx, prop, tier, seed, budget, symbolic):
  con, p, v = instances(prop)[idx]
  try:
    signal.signal(signal.SIGALRM, _alarm)
    r = run_instance(con, p, v, tier, seed, budget, symbolic)
  except BaseException as e:
    r = dict(status='error', sym_err=f'{type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}')
  try:
    conn.send(json.dumps({**blank(con, p, v), **r}, default=str))
  except Exception as e:
    conn.send(json.dumps({**blank(con, p, v), 'status': 'error', 'sym_err': str(e)}))
  conn.close()
  os._exit(0)


def blank(con, p, v):
  return dict(name=iname(con, p, v), target=con.target, obligations=[], violation=None, conc=None, prims={}, note='', wall=0, code=[], trace_failed=False)


def run_property(prop, tier, seed, jobs=8, only=None):
  """every instance in a process of its own; one whose proof breaks down is run again without the proof; when time runs
  short the rest gets a smaller share of it; a failing input that is found ends the run"""
  insts = instances(prop)
  idxs = [i for i, (c, p, v) in enumerate(insts) if only is None or only in iname(c, p, v)]
  quick = tier == 'quick'
  t0, total = time.time(), (700 if quick else 5400)
  ctx = mp.get_context('fork')
  running, results, again = {}, {}, set()
  todo = list(idxs)
  found = False
  while (todo or running) and not found:
    while todo and len(running) < jobs:
      i = todo.pop(0)
      left = total - (time.time() - t0)
      rounds = max(1, -(-(len(todo) + 1) // jobs))
      budget = min(240 if quick else 1500, max(20, left / rounds - 60))
      a, b = ctx.Pipe(False)
      pr = ctx.Process(target=_child, args=(b, i, prop, tier, seed, budget, i not in again))
      pr.start()
      b.close()
      running[i] = (pr, a, time.time(), budget)
    for i, (pr, a, t, budget) in list(running.items()):
      done = False
      if a.poll(0.01):
        try:
          results[i] = json.loads(a.recv())
        except EOFError:
          results[i] = None
        done = True
      elif not pr.is_alive():
        results[i] = None
        done = True
      elif time.time() - t > budget + (240 if quick else 1200):
        pr.kill()
        results[i] = None
        done = True
      if done:
        pr.join(5)
        del running[i]
        r = results[i]
        if r is None or r['status'] == 'error':
          if i not in again and (r is None or time.time() - t0 < total):
            again.add(i)
            todo.insert(0, i)
          else:
            results[i] = r or {**blank(*insts[i]), 'status': 'error', 'sym_err': 'worker died'}
        elif r['status'] == 'violated' and quick:
          found = True
    time.sleep(0.005)
  for pr, *_ in running.values():
    pr.kill()
  base = baseline().get(prop, {})
  out = []
  for i in idxs:
    r = results.get(i)
    if r is None:
      continue
    b = base.get(r['name'])
    r['changed'] = b is not None and (bool(r['trace_failed']) or r['code'] != b[:len(r['code'])])
    out.append(r)
  return out
