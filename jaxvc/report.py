"""Verdict, evidence and replay files."""
import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TRUSTED = [
    'jaxvc: the jaxpr semantics in jaxvc/sem.py and jaxvc/terms.py (cross-checked every run against JAX by executing each contract concretely on the real code)',
    'JAX tracing: the jaxpr obtained from the real Python function at symbolic dimensions is the program that runs',
    'SMT solvers: z3 (API and z3-new CLI), cvc5',
    'idealised arithmetic: floats are extended reals without rounding, float literals are the shortest decimal of their float32 value, int32 is unbounded except int->float conversion beyond 2^24; counts of array elements are at most 2^24',
    'axioms: sin/cos/sqrt/atan2 partial axiomatisation; reduction lemmas (witness, extensionality, one-hot sum) in jaxvc/sem.py',
]


def known_findings(prop):
  out = []
  p = os.path.join(VERIF, 'known_findings.json')
  if os.path.exists(p):
    for k in json.load(open(p)).get('findings', []):
      if k['property'] == prop:
        out.append(k)
  return out


def main(a, seed, t0):
  import logging
  logging.disable(logging.WARNING)
  from . import runner
  try:
    runner.load_contracts(a.prop)
    imp_err = None
  except Exception as e:
    import traceback
    imp_err = traceback.format_exc()
  if imp_err:
    print(imp_err, file=sys.stderr)
    return violation(a.prop, dict(kind='import', error=imp_err), no_input=True, tier=a.tier, seed=seed, t0=t0, results=[])
  # the structural self test of the VC generator
  results = runner.run_property(a.prop, a.tier, seed, jobs=a.j, only=a.only)
  if not results:
    print('no contracts for', a.prop)
    return 2
  known = known_findings(a.prop)
  viols, fails, weak = [], [], []
  for r in results:
    if a.v:
      print(f"{r['status']:12s} {r.get('wall')}s {r['name']}  obl={len(r['obligations'])} conc={r.get('conc')}")
      if r.get('sym_err'):
        print('     sym:', r['sym_err'])
      for k in ('conc_err', 'replay_err'):
        if r.get(k):
          print('     ', k, r[k])
      for o in r['obligations']:
        if o['status'] != 'unsat' or o['time'] > 2:
          print('     ', o)
      if r.get('failed'):
        print('     FAILED', r['failed']['obligation'], r['failed']['goal'][:600])
      if r['violation']:
        v = dict(r['violation'])
        v['inputs'] = {k: x for k, x in v['inputs'].items()} if a.v > 1 else list(v['inputs'])
        print('     VIOL', v)
    if r['status'] == 'violated':
      kf = [k for k in known if k['contract'] == r['name'] and k['what'] == r['violation']['what']]
      if kf:
        r['known'] = kf[0]
        print(f"KNOWN-FINDING: property={a.prop} {kf[0]['summary']}")
      else:
        viols.append(r)
    elif r['status'] in ('unknown', 'unsupported', 'error') and r.get('changed'):
      # it was proved for the committed tree, and the program is another one now
      r.setdefault('failed', None)
      if not r.get('failed'):
        r['failed'] = dict(obligation='(not reached)', by='', goal=r.get('sym_err') or '')
      weak.append(r)
    elif r['status'] == 'failed':
      kf = [k for k in known if k['contract'] == r['name'] and k['what'] == r['failed']['obligation']]
      if kf:
        print(f"KNOWN-FINDING: property={a.prop} {kf[0]['summary']}")
      else:
        fails.append(r)
  fails += weak
  if a.baseline:
    save_baseline(a.prop, results)
  write_evidence(a.prop, a.tier, seed, results, len(viols) + len(fails), t0)
  if viols:
    return violation(a.prop, dict(kind='input', **pick(viols[0])), False)
  if fails:
    return violation(a.prop, dict(kind='obligation', **pick(fails[0])), True)
  nob = sum(len(r['obligations']) for r in results)
  nconc = sum((r.get('conc') or {}).get('runs', 0) for r in results)
  print(f"{a.prop}: {sum(r['status'] == 'proved' for r in results)}/{len(results)} contract instances proved, {nob} obligations, {nconc} contract runs, {time.time() - t0:.1f}s; "
        + ', '.join(f"{r['name']}:{r['status']}" for r in results if r['status'] not in ('proved',)))
  if nob == 0 and nconc == 0:
    print('nothing was checked')
    return 2
  return 0


def save_baseline(prop, results):
  p = os.path.join(VERIF, 'baseline.json')
  d = json.load(open(p)) if os.path.exists(p) else {}
  d[prop] = {r['name']: r['code'] for r in results if r['status'] == 'proved'}
  with open(p, 'w') as f:
    json.dump(d, f, indent=0, sort_keys=True)


def pick(r):
  return dict(contract=r['name'], target=r['target'], violation=r.get('violation'), failed=r.get('failed'), sym_err=r.get('sym_err'))


def violation(prop, rec, no_input, tier=None, seed=None, t0=None, results=None):
  d = os.path.join(VERIF, 'replays')
  os.makedirs(d, exist_ok=True)
  path = os.path.join(d, f'{prop}.json')
  rec['property'] = prop
  rec['how_to_replay'] = f'cd /verif && ./check.sh {prop}   # re-traces /repo, re-derives the obligation and re-runs the input'
  with open(path, 'w') as f:
    json.dump(rec, f, indent=1, default=str)
  if results is not None:
    write_evidence(prop, tier, seed, results, 1, t0)
  what = rec.get('violation') or rec.get('failed') or {}
  print(f"property {prop} broken: contract {rec.get('contract')} on {rec.get('target')}: {(what.get('what') or what.get('obligation') or rec.get('error', ''))!s:.300} {what.get('detail', '')!s:.400}")
  print(f"VIOLATION property={prop} replay={path}" + (' no-failing-input-found' if no_input else ''))
  return 1


def write_evidence(prop, tier, seed, results, nviol, t0):
  man = {}
  try:
    for c in json.load(open(os.path.join(VERIF, 'MANIFEST.json')))['checks']:
      man[c['property']] = c
  except Exception:
    pass
  level = man.get(prop, {}).get('level', 'proof')
  obl = [o for r in results for o in r['obligations']]
  by = {}
  for o in obl:
    if o['status'] == 'unsat':
      k = '+'.join(o['by'])
      by[k] = by.get(k, 0) + 1
  proved = [r for r in results if r['status'] == 'proved']
  other = [r for r in results if r['status'] != 'proved']
  cov = dict(
      obligations=len(obl),
      discharged=sum(o['status'] == 'unsat' for o in obl),
      checker_cmd=f'./check.sh {prop}',
      trusted_base=TRUSTED,
      discharged_by=by,
      solver_seconds=round(sum(o['time'] for o in obl), 2),
      functions_under_contract=sorted(set(r['target'] for r in proved)),
      contract_instances=len(results),
      contract_instances_proved=len(proved),
      bounded_or_undecided=[dict(contract=r['name'], target=r['target'], status=r['status'], why=r.get('sym_err') or r.get('note') or (r.get('failed') or {}).get('obligation', '')) for r in other],
      bounded_contract_runs_on_real_code=sum((r.get('conc') or {}).get('runs', 0) for r in results),
      bounded_postcondition_evaluations=sum((r.get('conc') or {}).get('checks', 0) for r in results),
      remarks={r['name']: r['remarks'] for r in results if r.get('remarks')},
      primitives_interpreted=sum(sum(r.get('prims', {}).values()) for r in results),
      obligation_names=[f"{r['name']}:{o['name']}" for r in results for o in r['obligations']][:400],
  )
  if level in ('exploration',):
    cov['evaluations'] = cov['bounded_postcondition_evaluations']
    cov['distinct_nontrivial'] = cov['bounded_contract_runs_on_real_code']
    cov['rule'] = 'random inputs drawn per contract precondition; every run executes the real function on a fresh input'
    cov['samples'] = [r['name'] for r in results]
  if level == 'other':
    cov['explanation'] = man.get(prop, {}).get('level_note', '')
  ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
            assumptions=TRUSTED, wall_s=round(time.time() - t0, 2), violations=nviol)
  os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
  with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
    json.dump(ev, f, indent=1, default=str)
