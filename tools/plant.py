#!/usr/bin/env python3
"""plant.py SPECFILE [ids]: build, verify and store planted bugs."""
import sys, os, subprocess, json, shutil, importlib.util, time
spec = importlib.util.spec_from_file_location('s', sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
only = sys.argv[2:]
OUT = '/verif/seeded'
stable = json.load(open('/opt/vp/BASELINE.json'))
stable = stable.get('stable', stable.get('passed', stable))
LOG = open('/tmp/seed/results.jsonl', 'a')
def run(cmd, **kw):
  return subprocess.run(cmd, capture_output=True, text=True, **kw)
for b in m.BUGS:
  i = b['id']
  if only and i not in only: continue
  if not only and os.path.exists(f'{OUT}/{i}/meta.json'): continue
  w = f'/tmp/seed/w_{i}'
  shutil.rmtree(w, ignore_errors=True)
  run(['cp', '-a', '/repo', w]); run(['git', '-C', w, 'checkout', '-q', '-f', 'HEAD'])
  ok = True
  for f, old, new in b['edits']:
    p = f'{w}/waymax/{f}'; s = open(p).read()
    if s.count(old) != 1: print(i, 'EDIT COUNT', s.count(old), f, old[:60]); ok = False; break
    open(p, 'w').write(s.replace(old, new))
  if not ok: shutil.rmtree(w); continue
  d = run(['git', '-C', w, 'diff']).stdout
  o = f'/tmp/seed/o_{i}'; shutil.rmtree(o, ignore_errors=True); os.makedirs(o)
  open(f'{o}/patch.diff', 'w').write(d)
  shutil.copy('/tmp/seed/demo.sh', o); os.chmod(f'{o}/demo.sh', 0o755); shutil.copy('/tmp/seed/lib.py', o)
  open(f'{o}/demo.py', 'w').write('from lib import *\nfrom lib import _config\n' + b['demo'])
  json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(f'{o}/meta.json', 'w'), indent=1)
  r0 = run(['bash', f'{o}/demo.sh'], cwd='/repo'); r1 = run(['bash', f'{o}/demo.sh'], cwd=w)
  shutil.rmtree(f'{o}/__pycache__', ignore_errors=True)
  if r0.returncode != 0 or r1.returncode == 0 or 'PROPERTY BROKEN' not in r1.stdout:
    print(i, 'DEMO', r0.returncode, r1.returncode, (r0.stdout+r0.stderr)[-1500:], '----', (r1.stdout + r1.stderr)[-800:]); shutil.rmtree(w); continue
  if os.environ.get('DEMOONLY'): print(i, 'demo ok', flush=True); shutil.rmtree(w); continue
  t0 = time.time()
  env = dict(os.environ, JAX_PLATFORMS='cpu', TF_CPP_MIN_LOG_LEVEL='3', PYTHONDONTWRITEBYTECODE='1')
  failed = []
  if not b.get('notest'):
    r = run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-n', '8', '-p', 'no:cacheprovider', '-o', 'python_files=*_test.py', '--tb=no', '-rfE', 'waymax'], cwd=w, env=env)
    names = [l.split()[1] for l in r.stdout.splitlines() if l.startswith('FAILED') or l.startswith('ERROR')]
    base = open('/tmp/seed/basefail.txt').read().split() if os.path.exists('/tmp/seed/basefail.txt') else []
    failed = [n for n in names if n not in base]
    if not names: print(i, 'tests?', r.stdout[-500:], r.stderr[-500:])
  if failed:
    print(i, 'TESTS FAIL', failed[:6]); shutil.rmtree(w); continue
  shutil.rmtree(f'{OUT}/{i}', ignore_errors=True); shutil.copytree(o, f'{OUT}/{i}')
  t1 = time.time()
  c = run(['bash', '/verif/check.sh', b['property']], cwd='/verif', env=dict(os.environ, VERIF_REPO=w, VERIF_SEED='1', VERIF_TIER='quick'))
  vio = [l for l in c.stdout.splitlines() if 'VIOLATION' in l]
  rec = dict(id=i, prop=b['property'], rc=c.returncode, vio=vio[:2], t=round(time.time()-t1), tt=round(t1-t0))
  print(i, 'CAUGHT' if c.returncode == 1 and vio else 'MISSED', json.dumps(rec), flush=True)
  if c.returncode != 1: print(c.stdout[-1500:], c.stderr[-800:])
  LOG.write(json.dumps(rec) + '\n'); LOG.flush()
  shutil.rmtree(w)
