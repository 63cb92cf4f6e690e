"""Callees replaced by their contracts: while a caller is traced, a function that has its own contract becomes an
unknown function, and the caller's specification refers to the same unknown function."""
import contextlib
from . import sem
from . import spec as S

ACTIVE = set()
SUBST = {}     # name -> (module path, attribute, replacement)


def replaced(name):
  return name in ACTIVE


@contextlib.contextmanager
def active(names):
  import importlib
  old = []
  try:
    for n in names:
      mod, attr, fn = SUBST[n]
      m = importlib.import_module(mod)
      if hasattr(m, attr):
        old.append((m, attr, getattr(m, attr)))
        setattr(m, attr, fn)
    ACTIVE.update(names)
    yield
  finally:
    ACTIVE.difference_update(names)
    for m, a, f in old:
      setattr(m, a, f)


def _overlap(a, b):
  p = [a[..., k] for k in range(5)]
  q = [b[..., k] for k in range(5)]
  return sem.elementwise_op('overlap', bool, *p, *q) & sem.elementwise_op('overlap', bool, *q, *p)


def overlap(p, q):
  p, q = [p(k) for k in range(5)], [q(k) for k in range(5)]
  return S.And(S.uf('overlap', bool, *p, *q), S.uf('overlap', bool, *q, *p))


SUBST['has_overlap'] = ('waymax.utils.geometry', 'has_overlap', _overlap)
