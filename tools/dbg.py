"""debug: python tools/dbg.py PROP instance-substring obligation -> prints the context-simplified goal"""
import os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.argv0 = sys.argv
os.environ.setdefault('JAX_PLATFORMS', 'cpu'); os.environ['TF_CPP_MIN_LOG_LEVEL'] = '3'
sys.path[:0] = [os.environ.get('VERIF_REPO', '/repo'), HERE]
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.setrecursionlimit(20000); sys.dont_write_bytecode = True
import logging; logging.disable(logging.WARNING)
import time, z3
from jaxvc import runner, solve, terms as T
from jaxvc.contract import Sym
runner.load_contracts()
def get(prop, sub, ob):
  for con, p, v in runner.instances(prop):
    if sub in runner.iname(con, p, v):
      c = Sym(con, p, v); con.fn(c)
      for o in c.obligs:
        if o['name'] == ob:
          return c, o
if __name__ == '__main__':
  c, o = get(*sys.argv[1:4])
  for g in o['goals']:
    g = T.B(g); h = [T.B(x) for x in o.get('own', c.hyps[:o['nh']]) + o['hyps']]
    path = solve.path_condition(g)
    print('PATH', path)
    t = time.time()
    g2 = solve.ctx_simplify(h, g, path)
    print('T', time.time() - t, 'SIZE', len(str(g2)))
    print(g2)
    if len(sys.argv) > 4:
      a2 = solve.assemble(h + path, g2, [], rounds=1)
      print('CONG', solve.congruences(a2, h + path))
