#!/usr/bin/env python
"""check.py PROPERTY [--tier quick|thorough] [--only substring] [-v]"""
import argparse, json, os, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
os.environ.setdefault('JAX_PLATFORMS', 'cpu')
os.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3')
os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ['XLA_FLAGS'] = '--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1'
os.environ['OMP_NUM_THREADS'] = '1'
sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path[:0] = [REPO, HERE]
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.setrecursionlimit(20000)


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('prop')
  ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
  ap.add_argument('--only')
  ap.add_argument('--baseline', action='store_true', help='record the proved programs in baseline.json')
  ap.add_argument('-v', action='store_true')
  ap.add_argument('-j', type=int, default=8)
  a = ap.parse_args()
  seed = int(os.environ.get('VERIF_SEED', '1'))
  t0 = time.time()
  from jaxvc import report
  sys.exit(report.main(a, seed, t0))


if __name__ == '__main__':
  main()
