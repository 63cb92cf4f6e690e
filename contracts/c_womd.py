"""The dataset record: parsing, aggregation over time, writing back (P29, P30, P31)."""
from .common import *
import contextlib
import jax
import jax.numpy as jnp
import tensorflow as tf
from waymax.dataloader import womd_dataloader, womd_factories as F, womd_utils as U
from jaxvc import sem

PB = [(), ('B',)]
TIMES = ('past', 'current', 'future', 'all')
STATE_F = dict(x=g_pos, y=g_pos, z=g_pos, velocity_x=g_vel, velocity_y=g_vel, bbox_yaw=g_yaw, length=g_size, width=g_size, height=g_size, vel_yaw=g_yaw, speed=g_vel)
FIELD = dict(x='x', y='y', z='z', velocity_x='vel_x', velocity_y='vel_y', bbox_yaw='yaw')
flag = dict(where=lambda v, *ix: Or(v == -1, v == 0, v == 1), gen=lambda r, s: r.choice(np.array([1, 1, 1, 0, -1]), s))
flag01 = dict(where=lambda v, *ix: Or(v == 0, v == 1), gen=lambda r, s: r.integers(0, 2, s))
PI = 3.1415927410125732


def ints(lo, hi):
  return dict(gen=lambda r, s: r.integers(lo, hi, s))


def whole(lo, hi):
  """integers held in floats, small enough to be exact"""
  return dict(gen=lambda r, s: r.integers(lo, hi, s) * 1.0, where=lambda v, *ix: And(v >= -16777216, v <= 16777216, v == tofloat(toint(v))))


def ts_gen(r, s):
  return np.broadcast_to(r.integers(0, 50) * 1000 + 100000 * np.arange(s[-1]), s)


def record(c, pre, times, paths=False, batch=True):
  """a decoded record: pre are batch dimensions, times: {time key: its number of steps}"""
  N, L, R = c.dim('N'), c.dim('L'), c.dim('R')
  e = {}
  put = lambda k, sh, dt, **kw: e.__setitem__(k, c.leaf(k.replace('/', '.'), tuple(pre) + tuple(sh), dt, **kw))
  for t, n in times.items():
    for f, g in STATE_F.items():
      put(f'state/{t}/{f}', (N, n), f32, gen=g)
    put(f'state/{t}/valid', (N, n), i32, **flag)
    put(f'state/{t}/timestamp_micros', (N, n), i32, gen=ts_gen)
    for f in 'xyz':
      put(f'traffic_light_state/{t}/{f}', (n, L), f32, gen=g_pos)
    put(f'traffic_light_state/{t}/state', (n, L), i32, where=lambda v, *ix: And(0 <= v, v <= 8), **ints(0, 9))
    put(f'traffic_light_state/{t}/id', (n, L), i32, **ints(1, 100))
    put(f'traffic_light_state/{t}/valid', (n, L), i32, **flag)
    put(f'traffic_light_state/{t}/timestamp_micros', (n,), i32, gen=ts_gen)
  put('state/id', (N,), f32, **whole(1, 3000))
  put('state/type', (N,), f32, where=lambda v, *ix: Or(*[v == k for k in range(-1, 5)]), gen=lambda r, s: r.integers(-1, 5, s) * 1.0)
  for f in ('is_sdc', 'tracks_to_predict', 'objects_of_interest'):
    put('state/' + f, (N,), i32, **flag)
  for f in ('xyz', 'dir'):
    put('roadgraph_samples/' + f, (R, 3), f32, gen=g_pos)
  put('roadgraph_samples/id', (R, 1), i32, **ints(1, 2 ** 30))
  put('roadgraph_samples/type', (R, 1), i32, where=lambda v, *ix: And(0 <= v, v <= 20), **ints(0, 21))
  put('roadgraph_samples/valid', (R, 1), i32, **flag01)
  if paths:
    P, K = c.dim('P'), c.dim('K')
    put('path_samples/xyz', (P, K, 3), f32, gen=g_pos)
    put('path_samples/id', (P, K), i32, **ints(1, 2 ** 30))
    put('path_samples/valid', (P, K), i32, **flag01)
    put('path_samples/arc_length', (P, K), f32, gen=g_pos)
    put('path_samples/on_route', (P, 1), i32, **flag01)
  return e


def is_mean(v, n, ok, x):
  """v is the mean of x over the valid steps, or -1 without any"""
  cnt, tot = sum_(n, lambda t: ite(ok(t), 1.0, 0.0)), sum_(n, lambda t: ite(ok(t), x(t), 0.0))
  some = exists(n, ok)
  return And(Implies(some, near(v * cnt, tot, tol=1e-2)), Implies(Not(some), v == -1))


def ensure_state(c, st, e, pre, t, n, paths):
  """the simulator state st holds the record e, time key t with n steps"""
  N, L, R = c.dim('N'), c.dim('L'), c.dim('R')
  pre = tuple(pre)
  full = pre + (N, n)
  lt, s0 = st.log_trajectory, st.sim_trajectory
  for name, tr in (('log', lt), ('sim', s0)):
    for f in all_fields(tr):
      c.ensure_shape(f'{name}.{f}.shape', tr[f], full)
      c.ensure_fact(f'{name}.{f}.dtype', np.dtype(tr[f].jdtype) == np.dtype(np.bool_ if f == 'valid' else np.int32 if f == 'timestamp_micros' else np.float32))
  src = lambda f: e[f'state/{t}/{f}']
  ok = lambda ix, k: src('valid')[ix + (k,)] == 1
  want = {b: (lambda *ix, a=a: src(a)[ix]) for a, b in FIELD.items()}
  want['timestamp_micros'] = lambda *ix: src('timestamp_micros')[ix]
  for f, w in want.items():
    c.ensure('log.' + f, full, lambda *ix: same(lt[f][ix], w(*ix)))
  for f in ('length', 'width', 'height'):
    c.ensure('log.' + f, full, lambda *ix: is_mean(lt[f][ix], n, lambda k: ok(ix[:-1], k), lambda k: src(f)[ix[:-1] + (k,)]))
  c.ensure('log.valid', full, lambda *ix: Iff(lt.valid[ix], ok(ix[:-1], ix[-1])))
  for f in all_fields(s0):
    zero = V_(False) if f == 'valid' else 0
    c.ensure('sim.' + f, full, lambda *ix: And(Implies(ix[-1] == 0, same(s0[f][ix], lt[f][ix])), Implies(ix[-1] > 0, same(s0[f][ix], zero))))
  c.ensure_shape('timestep.shape', st.timestep, pre)
  c.ensure('timestep', pre, lambda *ix: st.timestep[ix] == 0)
  md = st.object_metadata
  for f in all_fields(md):
    c.ensure_shape(f'object.{f}.shape', md[f], pre + (N,))
  c.ensure('object.ids', pre + (N,), lambda *ix: tofloat(md.ids[ix]) == e['state/id'][ix])
  c.ensure('object.types', pre + (N,), lambda *ix: tofloat(md.object_types[ix]) == e['state/type'][ix])
  c.ensure('object.is_valid', pre + (N,), lambda *ix: Iff(md.is_valid[ix], Not(e['state/tracks_to_predict'][ix] == -1)))
  c.ensure('object.is_modeled', pre + (N,), lambda *ix: Iff(md.is_modeled[ix], e['state/tracks_to_predict'][ix] == 1))
  c.ensure('object.is_sdc', pre + (N,), lambda *ix: Iff(md.is_sdc[ix], e['state/is_sdc'][ix] == 1))
  c.ensure('object.of_interest', pre + (N,), lambda *ix: Iff(md.objects_of_interest[ix], e['state/objects_of_interest'][ix] == 1))
  c.ensure('object.is_controlled', pre + (N,), lambda *ix: Not(md.is_controlled[ix]))
  tl = st.log_traffic_light
  for f in all_fields(tl):
    c.ensure_shape(f'light.{f}.shape', tl[f], pre + (L, n))
  sw = lambda ix: ix[:-2] + (ix[-1], ix[-2])
  for f, k in (('x', 'x'), ('y', 'y'), ('z', 'z'), ('state', 'state'), ('lane_ids', 'id')):
    c.ensure('light.' + f, pre + (L, n), lambda *ix: same(tl[f][ix], e[f'traffic_light_state/{t}/{k}'][sw(ix)]))
  c.ensure('light.valid', pre + (L, n), lambda *ix: Iff(tl.valid[ix], e[f'traffic_light_state/{t}/valid'][sw(ix)] == 1))
  rg = st.roadgraph_points
  for f in all_fields(rg):
    c.ensure_shape(f'road.{f}.shape', rg[f], pre + (R,))
  for q, a in enumerate('xyz'):
    c.ensure('road.' + a, pre + (R,), lambda *ix: same(rg[a][ix], e['roadgraph_samples/xyz'][ix + (q,)]))
    c.ensure('road.dir_' + a, pre + (R,), lambda *ix: same(rg['dir_' + a][ix], e['roadgraph_samples/dir'][ix + (q,)]))
  c.ensure('road.types', pre + (R,), lambda *ix: rg.types[ix] == e['roadgraph_samples/type'][ix + (0,)])
  c.ensure('road.ids', pre + (R,), lambda *ix: rg.ids[ix] == e['roadgraph_samples/id'][ix + (0,)])
  c.ensure('road.valid', pre + (R,), lambda *ix: Iff(rg.valid[ix], e['roadgraph_samples/valid'][ix + (0,)] == 1))
  c.ensure_fact('paths present', (st.sdc_paths is not None) == paths)
  if paths:
    ps, sh = st.sdc_paths, pre + (c.dim('P'), c.dim('K'))
    for f in all_fields(ps):
      c.ensure_shape(f'path.{f}.shape', ps[f], pre + (c.dim('P'), 1) if f == 'on_route' else sh)
    for q, a in enumerate('xyz'):
      c.ensure('path.' + a, sh, lambda *ix: same(ps[a][ix], e['path_samples/xyz'][ix + (q,)]))
    c.ensure('path.arc_length', sh, lambda *ix: same(ps.arc_length[ix], e['path_samples/arc_length'][ix]))
    c.ensure('path.ids', sh, lambda *ix: ps.ids[ix] == e['path_samples/id'][ix])
    c.ensure('path.valid', sh, lambda *ix: Iff(ps.valid[ix], e['path_samples/valid'][ix] == 1))
    c.ensure('path.on_route', pre + (c.dim('P'),), lambda *ix: Iff(ps.on_route[ix + (0,)], e['path_samples/on_route'][ix + (0,)] == 1))


DIMS = dict(N=(1, 4), Tp=(1, 4), Tf=(1, 4), Ta=(1, 5), L=(1, 3), R=(1, 4), P=(1, 3), K=(1, 3), B=(1, 3))


@contract('P29', 'simulator_state_from_womd_dict', 'simulator_state_from_womd_dict', dims=DIMS, prefixes=PB,
          variants=[dict(time='all', paths=False), dict(time='all', paths=True), dict(time='past', paths=False), dict(time='current', paths=False), dict(time='future', paths=False)])
def parse(c):
  steps = dict(past=c.dim('Tp'), current=1, future=c.dim('Tf'), all=c.dim('Ta'))
  t, ps = c.v['time'], c.v['paths']
  other = 'future' if t == 'past' else 'past'
  e = record(c, c.prefix, {t: steps[t], other: steps[other]}, paths=ps)
  st = c.call(lambda d: F.simulator_state_from_womd_dict(d, include_sdc_paths=ps, time_key=t), e)
  ensure_state(c, st, e, c.prefix, t, steps[t], ps)


@contract('P29', 'rejects', 'simulator_state_from_womd_dict / traffic_lights_from_womd_dict')
def rejects(c):
  for name, f in (('state', F.simulator_state_from_womd_dict), ('lights', F.traffic_lights_from_womd_dict)):
    try:
      f({}, time_key='next')
      r = False
    except ValueError:
      r = True
    c.ensure_fact(f'unknown time key ({name})', r)


class Tf:
  """TensorFlow's concat, ones and zeros, which the aggregation uses, given by those of jax.numpy"""

  def concat(self, values, axis):
    return jnp.concatenate(values, axis=axis)

  def ones(self, shape, dtype=jnp.float32):
    return jnp.ones(shape, dtype)

  def zeros(self, shape, dtype=jnp.float32):
    return jnp.zeros(shape, dtype)

  def __getattr__(self, n):
    return getattr(jnp, n)


@contextlib.contextmanager
def as_jax(module):
  old = module.tf
  module.tf = Tf()
  try:
    yield
  finally:
    module.tf = old


def run_tf(c, f, e):
  """f on the record: real TensorFlow in concrete runs, the jax stand-in when it is read symbolically"""
  keys = []

  def g(d):
    if c.conc:
      out = f({k: tf.constant(np.asarray(v)) for k, v in d.items()})
      out = {k: np.asarray(v) for k, v in out.items()}
    else:
      with as_jax(U):
        out = f(d)
    keys[:] = [sorted(out)]
    return out
  return c.call(g, e, warm=False), keys[0]


def agg_spec(c, o, got, e, pre, ok_rows=None, wrap_yaw=False):
  N, L, Tp, Tf_ = c.dim('N') if ok_rows is None else ok_rows, c.dim('L'), c.dim('Tp'), c.dim('Tf')
  T_ = Tp + 1 + Tf_
  timed = sorted({k.split('/', 2)[2] for k in e if k.startswith('state/past/')})
  lights = sorted({k.split('/', 2)[2] for k in e if k.startswith('traffic_light_state/past/')})
  rest = [k for k in e if k.split('/')[1] not in TIMES]
  want = ['state/all/' + f for f in timed] + ['traffic_light_state/all/' + f for f in lights] + rest + ['state/which_time']
  c.ensure_fact('features', got == sorted(want), f'{sorted(set(got) ^ set(want))}')

  def at(k, f, ix, axis):
    """the entry of the concatenation at time ix[axis]"""
    t = ix[axis]
    put = lambda u: ix[:axis] + (u,) + ix[axis + 1:]
    return ite(t < Tp, e[f'{k}/past/{f}'][put(t)], ite(t == Tp, e[f'{k}/current/{f}'][put(0)], e[f'{k}/future/{f}'][put(t - Tp - 1)]))
  for f in timed:
    x = o['state/all/' + f]
    c.ensure_shape(f'state.{f}.shape', x, (N, T_))
    if f == 'bbox_yaw' and wrap_yaw:
      c.ensure('state.' + f, (N, T_), lambda *ix: And(near_angle(x[ix], wrap(at('state', f, ix, 1)), tol=1e-4), in_turn(x[ix])))
    else:
      c.ensure('state.' + f, (N, T_), lambda *ix: same(x[ix], at('state', f, ix, 1)))
  for f in lights:
    x = o['traffic_light_state/all/' + f]
    sh = (T_,) if f == 'timestamp_micros' else (T_, L)
    c.ensure_shape(f'light.{f}.shape', x, sh)
    c.ensure('light.' + f, sh, lambda *ix: same(x[ix], at('traffic_light_state', f, ix, 0)))
  for k in rest:
    sh = e[k].shape
    if ok_rows is not None and k.startswith('state/'):
      sh = (N,) + tuple(sh[1:])
    c.ensure_shape(k + '.shape', o[k], sh)
    c.ensure(k, sh, lambda *ix: same(o[k][ix], e[k][ix]))
  w = o['state/which_time']
  c.ensure_shape('which_time.shape', w, (T_,))
  c.ensure('which_time', (T_,), lambda t: w[t] == ite(t < Tp, -1.0, ite(t == Tp, 0.0, 1.0)))


RAW = dict(past='Tp', current=1, future='Tf')


def raw_record(c):
  return record(c, (), dict(past=c.dim('Tp'), current=1, future=c.dim('Tf')), paths=True)


@contract('P30', 'aggregate_time_tensors', 'aggregate_time_tensors', dims=DIMS, eager=True)
def aggregate(c):
  e = raw_record(c)
  o, got = run_tf(c, U.aggregate_time_tensors, e)
  agg_spec(c, o, got, e, ())


@contract('P30', 'preprocess_womd_example', 'preprocess_womd_example', dims={**DIMS, 'M': (1, 6)}, eager=True, variants=[dict(cap=False), dict(cap=True)])
def preprocess(c):
  """aggregation, headings wrapped to one turn, and the first M objects only"""
  e = raw_record(c)
  cap = c.pydim('M') if c.v['cap'] else None
  o, got = run_tf(c, lambda d: womd_dataloader.preprocess_womd_example(d, True, cap), e)
  rows = minv(c.dim('N'), c.dim('M')) if cap is not None else None
  agg_spec(c, o, got, e, (), ok_rows=rows, wrap_yaw=True)


@contract('P30', 'preprocess_womd_example.raw', 'preprocess_womd_example', dims={**DIMS, 'M': (1, 6)}, eager=True, variants=[dict(cap=False), dict(cap=True)])
def preprocess_raw(c):
  """without aggregation the features stay as they are, up to the limit on objects"""
  e = raw_record(c)
  cap = c.pydim('M') if c.v['cap'] else None
  o, got = run_tf(c, lambda d: womd_dataloader.preprocess_womd_example(d, False, cap), e)
  c.ensure_fact('features', got == sorted(e))
  for k in e:
    sh = e[k].shape
    if cap is not None and k.startswith('state/'):
      sh = (minv(c.dim('N'), c.dim('M')),) + tuple(sh[1:])
    c.ensure_shape(k + '.shape', o[k], sh)
    c.ensure(k, sh, lambda *ix: same(o[k][ix], e[k][ix]))


TF = dict(f=tf.float32, i=tf.int64)


def description(N, H, E, L, R, T_):
  """the feature description of a record with H past steps and E future steps; also the shape of every feature"""
  fd = {}
  put = lambda k, sh, t: fd.__setitem__(k, tf.io.FixedLenFeature(list(sh), TF[t], default_value=None))
  for t, n in (('past', H), ('current', 1), ('future', E)):
    for f in STATE_F:
      put(f'state/{t}/{f}', (N, n), 'f')
    for f in ('valid', 'timestamp_micros'):
      put(f'state/{t}/{f}', (N, n), 'i')
    for f in 'xyz':
      put(f'traffic_light_state/{t}/{f}', (n, L), 'f')
    for f in ('state', 'id', 'valid'):
      put(f'traffic_light_state/{t}/{f}', (n, L), 'i')
    put(f'traffic_light_state/{t}/timestamp_micros', (n,), 'i')
  for f, t in (('id', 'f'), ('type', 'f'), ('is_sdc', 'i'), ('tracks_to_predict', 'i'), ('objects_of_interest', 'i')):
    put('state/' + f, (N,), t)
  for f, k, t in (('xyz', 3, 'f'), ('dir', 3, 'f'), ('id', 1, 'i'), ('type', 1, 'i'), ('valid', 1, 'i')):
    put('roadgraph_samples/' + f, (R, k), t)
  return fd


WDIMS = dict(N=(1, 4), H=(1, 3), E=(1, 3), T=(2, 7), L=(1, 3), R=(1, 4), _=('T >= H + 1',))


def w_state(c):
  H, T_ = c.dim('H'), c.dim('T')
  n = c.dim('N')
  md = metadata(c, (n,))
  c.link([md.ids], lambda i: And(md.ids[i] >= -16777216, md.ids[i] <= 16777216))   # the format keeps ids in float32
  return datatypes.SimulatorState(
      sim_trajectory=trajectory(c, (n, T_), 'sim_'), log_trajectory=trajectory(c, (n, T_), 'log_'), log_traffic_light=tlights(c, (c.dim('L'), T_)),
      object_metadata=md, roadgraph_points=roadgraph(c, (c.dim('R'),)), sdc_paths=None,
      timestep=c.leaf('timestep', (), i32, where=lambda v: And(H <= v, v <= T_ - 1), gen=lambda r, s: r.integers(int(S.raw(H)), int(S.raw(T_)), s)))


def descr(c):
  return description(c.pydim('N'), c.pydim('H'), c.pydim('E'), c.pydim('L'), c.pydim('R'), c.pydim('T'))


@contract('P31', 'simulator_state_to_womd_dict', 'simulator_state_to_womd_dict', dims=WDIMS, variants=[dict(drop=False), dict(drop=True)])
def write(c):
  """every requested feature holds the part of the state it names; nothing else comes out"""
  st, fd = w_state(c), descr(c)
  if c.v['drop']:
    for k in ('state/past/speed', 'state/future/x', 'roadgraph_samples/dir', 'traffic_light_state/future/id', 'state/objects_of_interest'):
      del fd[k]
  o = c.call(lambda s: U.simulator_state_to_womd_dict(s, fd), st)
  N, H, L, R = c.dim('N'), c.dim('H'), c.dim('L'), c.dim('R')
  now = st.timestep[()]
  c.ensure_fact('features', set(o) == set(fd))
  S0, tl, md, rg = st.sim_trajectory, st.log_traffic_light, st.object_metadata, st.roadgraph_points
  vel = lambda ix: norm2(S0.vel_x[ix], S0.vel_y[ix])
  tr = {**{a: (lambda ix, b=b: S0[b][ix]) for a, b in FIELD.items()}, 'length': lambda ix: S0.length[ix], 'width': lambda ix: S0.width[ix], 'height': lambda ix: S0.height[ix],
        'timestamp_micros': lambda ix: S0.timestamp_micros[ix], 'valid': lambda ix: ite(S0.valid[ix], 1, 0)}
  for t, n, off in (('past', H, now - H), ('current', 1, now)):
    for f, w in tr.items():
      c.ensure_shape(f'{t}.{f}.shape', o[f'state/{t}/{f}'], (N, n))
      c.ensure(f'{t}.{f}', (N, n), lambda i, k: same(o[f'state/{t}/{f}'][i, k], w((i, k + off))))
    if f'state/{t}/speed' in fd:
      c.ensure(f'{t}.speed', (N, n), lambda i, k: near(o[f'state/{t}/speed'][i, k], ite(S0.valid[i, k + off], vel((i, k + off)), -1.0)))
    for f, b in (('x', 'x'), ('y', 'y'), ('z', 'z'), ('state', 'state'), ('id', 'lane_ids')):
      c.ensure_shape(f'{t}.light.{f}.shape', o[f'traffic_light_state/{t}/{f}'], (n, L))
      c.ensure(f'{t}.light.{f}', (n, L), lambda k, l: same(o[f'traffic_light_state/{t}/{f}'][k, l], tl[b][l, k + off]))
    c.ensure(f'{t}.light.valid', (n, L), lambda k, l: o[f'traffic_light_state/{t}/valid'][k, l] == ite(tl.valid[l, k + off], 1, 0))
    c.ensure(f'{t}.light.timestamp', (n,), lambda k: o[f'traffic_light_state/{t}/timestamp_micros'][k] == S0.timestamp_micros[0, k + off])
  for k in fd:
    if '/future/' in k:
      c.ensure_shape(k + '.shape', o[k], tuple(fd_shape(c, k)))
      c.ensure(k, o[k].shape, lambda *ix: o[k][ix] == -1)
  for k, f in (('type', 'object_types'), ('id', 'ids')):
    c.ensure('object.' + k, (N,), lambda i: o['state/' + k][i] == ite(md.is_valid[i], md[f][i], -1))
  for k, f in (('objects_of_interest', 'objects_of_interest'), ('is_sdc', 'is_sdc'), ('tracks_to_predict', 'is_modeled')):
    if 'state/' + k in fd:
      c.ensure('object.' + k, (N,), lambda i: o['state/' + k][i] == ite(md.is_valid[i], ite(md[f][i], 1, 0), -1))
  for q, a in enumerate('xyz'):
    c.ensure('road.' + a, (R,), lambda i: same(o['roadgraph_samples/xyz'][i, q], rg[a][i]))
    if 'roadgraph_samples/dir' in fd:
      c.ensure('road.dir_' + a, (R,), lambda i: same(o['roadgraph_samples/dir'][i, q], rg['dir_' + a][i]))
  for k in ('id', 'type'):
    c.ensure('road.' + k, (R,), lambda i: o['roadgraph_samples/' + k][i, 0] == rg[k + 's'][i])
  c.ensure('road.valid', (R,), lambda i: o['roadgraph_samples/valid'][i, 0] == ite(rg.valid[i], 1, 0))


def fd_shape(c, k):
  n, L, E = c.dim('N'), c.dim('L'), c.dim('E')
  if k.startswith('state/'):
    return (n, E)
  return (E,) if k.endswith('timestamp_micros') else (E, L)


def norm2(x, y):
  return sqrt(x * x + y * y)


@contract('P31', 'round_trip', 'simulator_state_to_womd_dict / simulator_state_from_womd_dict', dims=WDIMS, variants=[dict(time='past'), dict(time='current'), dict(time='future')])
def round_trip(c):
  """what was written is read back; the future, which is not in the state, is read as invalid"""
  st, fd = w_state(c), descr(c)
  t = c.v['time']
  b = c.call(lambda s: F.simulator_state_from_womd_dict(U.simulator_state_to_womd_dict(s, fd), time_key=t), st)
  N, L, R = c.dim('N'), c.dim('L'), c.dim('R')
  now = st.timestep[()]
  n, off = dict(past=(c.dim('H'), now - c.dim('H')), current=(1, now), future=(c.dim('E'), None))[t]
  S0, tl = st.sim_trajectory, st.log_traffic_light
  for f in all_fields(b.log_trajectory):
    c.ensure_shape(f'log.{f}.shape', b.log_trajectory[f], (N, n))
    got = b.log_trajectory[f]
    if t == 'future':
      c.ensure('log.' + f, (N, n), lambda i, k: Not(got[i, k]) if f == 'valid' else got[i, k] == -1)
    elif f in ('length', 'width', 'height'):
      ok = lambda i, k: S0.valid[i, k + off]
      c.ensure('log.' + f, (N, n), lambda i, k: is_mean(got[i, k], n, lambda q: ok(i, q), lambda q: S0[f][i, q + off]))
    else:
      c.ensure('log.' + f, (N, n), lambda i, k: (Iff if f == 'valid' else same)(got[i, k], S0[f][i, k + off]))
  for f in all_fields(b.log_traffic_light):
    got = b.log_traffic_light[f]
    c.ensure_shape(f'light.{f}.shape', got, (L, n))
    if t == 'future':
      c.ensure('light.' + f, (L, n), lambda l, k: Not(got[l, k]) if f == 'valid' else got[l, k] == -1)
    else:
      c.ensure('light.' + f, (L, n), lambda l, k: (Iff if f == 'valid' else same)(got[l, k], tl[f][l, k + off]))
  for f in all_fields(b.roadgraph_points):
    c.ensure('road.' + f, (R,), lambda i: (Iff if f == 'valid' else same)(b.roadgraph_points[f][i], st.roadgraph_points[f][i]))
  md, mo = st.object_metadata, b.object_metadata
  c.ensure('object.is_valid', (N,), lambda i: Iff(mo.is_valid[i], md.is_valid[i]))
  for f in ('ids', 'object_types'):
    c.ensure('object.' + f, (N,), lambda i: mo[f][i] == ite(md.is_valid[i], md[f][i], -1))
  for f in ('is_sdc', 'is_modeled', 'objects_of_interest'):
    c.ensure('object.' + f, (N,), lambda i: Iff(mo[f][i], And(md.is_valid[i], md[f][i])))
  c.ensure('timestep', (), lambda: b.timestep[()] == 0)


# ------------------------------------------------------------------ the loader, on files
def example_values(r, R, paths):
  """the features of one record of the Open Motion Dataset: 128 objects, 10 + 1 + 80 steps, 16 lights"""
  v = {}
  n, L = 128, 16
  for t, k in (('past', 10), ('current', 1), ('future', 80)):
    for f in STATE_F:
      v[f'state/{t}/{f}'] = r.uniform(-9, 9, (n, k)).astype(f32)
    v[f'state/{t}/valid'] = r.choice([1, 1, 0, -1], (n, k))
    v[f'state/{t}/timestamp_micros'] = r.integers(0, 10 ** 7, (n, k))
    for f in 'xyz':
      v[f'traffic_light_state/{t}/{f}'] = r.uniform(-99, 99, (k, L)).astype(f32)
    v[f'traffic_light_state/{t}/state'] = r.integers(0, 9, (k, L))
    v[f'traffic_light_state/{t}/id'] = r.integers(1, 500, (k, L))
    v[f'traffic_light_state/{t}/valid'] = r.choice([1, 1, 0, -1], (k, L))
    v[f'traffic_light_state/{t}/timestamp_micros'] = r.integers(0, 10 ** 7, (k,))
  v['state/id'] = r.integers(1, 3000, n).astype(f32)
  v['state/type'] = r.integers(0, 5, n).astype(f32)
  for f in ('is_sdc', 'tracks_to_predict', 'objects_of_interest'):
    v['state/' + f] = r.choice([1, 0, -1], n)
  for f in ('xyz', 'dir'):
    v['roadgraph_samples/' + f] = r.uniform(-99, 99, (R, 3)).astype(f32)
  v['roadgraph_samples/id'] = r.integers(1, 2 ** 30, (R, 1))
  v['roadgraph_samples/type'] = r.integers(0, 21, (R, 1))
  v['roadgraph_samples/valid'] = r.integers(0, 2, (R, 1))
  if paths:
    P, K = paths
    v['path_samples/xyz'] = r.uniform(-99, 99, (P, K, 3)).astype(f32)
    v['path_samples/id'] = r.integers(1, 2 ** 30, (P, K))
    v['path_samples/valid'] = r.integers(0, 2, (P, K))
    v['path_samples/arc_length'] = r.uniform(0, 99, (P, K)).astype(f32)
    v['path_samples/on_route'] = r.integers(0, 2, (P, 1))
  return v


def serialize(v):
  ft = {}
  for k, x in v.items():
    x = np.asarray(x)
    l = tf.train.Feature(float_list=tf.train.FloatList(value=x.ravel())) if x.dtype.kind == 'f' else tf.train.Feature(int64_list=tf.train.Int64List(value=x.ravel()))
    ft[k] = l
  return tf.train.Example(features=tf.train.Features(feature=ft)).SerializeToString()


def expected_state(v, n, paths):
  """numpy reading of the record: the first n objects"""
  n = n or 128
  al = lambda f: np.concatenate([v[f'state/{t}/{f}'] for t in ('past', 'current', 'future')], axis=-1)[:n]
  tl = lambda f: np.swapaxes(np.concatenate([v[f'traffic_light_state/{t}/{f}'] for t in ('past', 'current', 'future')], axis=0), 0, 1)
  ok = al('valid') == 1
  log = {b: al(a) for a, b in FIELD.items()}
  log['yaw'] = np.mod(log['yaw'].astype(np.float64) + np.pi, 2 * np.pi) - np.pi
  for f in ('length', 'width', 'height'):
    k = ok.sum(-1, keepdims=True)
    log[f] = np.where(k == 0, -1.0, np.sum(np.where(ok, al(f), 0), axis=-1, keepdims=True) / np.maximum(k, 1)) + 0 * ok
  log['valid'], log['timestamp_micros'] = ok, al('timestamp_micros')
  o = {f'log_trajectory.{k}': x for k, x in log.items()}
  first = lambda x: np.where(np.arange(91) == 0, x, np.zeros_like(x))
  o.update({f'sim_trajectory.{k}': first(x) for k, x in log.items()})
  for f, k in (('x', 'x'), ('y', 'y'), ('z', 'z'), ('state', 'state'), ('lane_ids', 'id')):
    o['log_traffic_light.' + f] = tl(k)
  o['log_traffic_light.valid'] = tl('valid') == 1
  m = 'object_metadata.'
  o[m + 'ids'], o[m + 'object_types'] = v['state/id'][:n], v['state/type'][:n]
  o[m + 'is_sdc'], o[m + 'objects_of_interest'] = v['state/is_sdc'][:n] == 1, v['state/objects_of_interest'][:n] == 1
  o[m + 'is_valid'], o[m + 'is_modeled'] = v['state/tracks_to_predict'][:n] != -1, v['state/tracks_to_predict'][:n] == 1
  for q, a in enumerate('xyz'):
    o['roadgraph_points.' + a], o['roadgraph_points.dir_' + a] = v['roadgraph_samples/xyz'][:, q], v['roadgraph_samples/dir'][:, q]
  for a, b in (('ids', 'id'), ('types', 'type'), ('valid', 'valid')):
    o['roadgraph_points.' + a] = v['roadgraph_samples/' + b][:, 0]
  if paths:
    for q, a in enumerate('xyz'):
      o['sdc_paths.' + a] = v['path_samples/xyz'][..., q]
    for a, b in (('ids', 'id'), ('valid', 'valid'), ('arc_length', 'arc_length'), ('on_route', 'on_route')):
      o['sdc_paths.' + a] = v['path_samples/' + b]
  o['timestep'] = np.zeros(())
  return o


def get_path(o, p):
  for k in p.split('.'):
    o = getattr(o, k)
  return np.asarray(o)


def match(c, name, st, ix, want):
  for k, w in want.items():
    x = get_path(st, k)[ix]
    if k.endswith('.yaw'):
      good = x.shape == w.shape and np.all(np.abs(np.mod(x - w + np.pi, 2 * np.pi) - np.pi) < 1e-3)
    else:
      good = x.shape == w.shape and np.allclose(x.astype(np.float64), w.astype(np.float64), rtol=1e-4, atol=1e-4)
    c.ensure_fact(f'{name}{k}', good)


@contract('P29', 'simulator_state_generator', 'simulator_state_generator / preprocess_serialized_womd_data', sym=False, samples=1,
          variants=[dict(case='plain'), dict(case='paths'), dict(case='batch'), dict(case='shards')],
          bounded_note='records written to a scratch file and loaded again: runs of the real code only (TensorFlow input pipeline)')
def loader(c):
  import os, tempfile
  from waymax import config as _config
  case = c.v['case']
  r, R = np.random.default_rng(7), 6
  ps = (3, 4) if case == 'paths' else None
  vs = [example_values(r, R, ps) for _ in range(5)]
  n = dict(plain=None, paths=9, batch=4, shards=3)[case]
  with tempfile.TemporaryDirectory() as d:
    def put(name, items):
      with tf.io.TFRecordWriter(os.path.join(d, name)) as w:
        for v in items:
          w.write(serialize(v))
    if case == 'shards':
      put('f-00000-of-00002', vs[:3])
      put('f-00001-of-00002', vs[3:])
    else:
      put('f', vs)
    cfg = _config.DatasetConfig(
        path=os.path.join(d, 'f@2' if case == 'shards' else 'f'), repeat=1, num_shards=1, max_num_rg_points=R, max_num_objects=n,
        batch_dims=dict(plain=(), paths=(), batch=(2, 2), shards=())[case], include_sdc_paths=bool(ps),
        num_paths=ps[0] if ps else None, num_points_per_path=ps[1] if ps else None)
    got = list(womd_dataloader.simulator_state_generator(cfg))
  want = [expected_state(v, n, ps) for v in vs]
  if case == 'batch':
    c.ensure_fact('batches', len(got) == 1 and tuple(got[0].shape[:2]) == (2, 2))
    for k in range(4):
      match(c, f'{k}.', got[0], (k // 2, k % 2), want[k])
    return
  c.ensure_fact('every record once', len(got) == 5)
  left = list(range(5))
  for k, st in enumerate(got):
    j = k
    if case == 'shards':   # interleaved: any order over the files
      j = next((j for j in left if np.array_equal(get_path(st, 'log_trajectory.x'), want[j]['log_trajectory.x'])), None)
      c.ensure_fact('a record of the files', j is not None)
      left.remove(j)
    match(c, f'{k}.', st, (), want[j])


@contract('P29', 'generate_sharded_filenames', 'generate_sharded_filenames', sym=False, samples=1, bounded_note='shard counts up to 1200 and 123456')
def shards(c):
  from waymax.dataloader import dataloader_utils as D
  for n in list(range(1, 130)) + [1000, 1200]:
    c.ensure_fact(f'{n} shards', list(D.generate_sharded_filenames(f'/a/b.x@{n}')) == [f'/a/b.x-{i:05d}-of-{n:05d}' for i in range(n)])
  big = D.generate_sharded_filenames('q@123456')
  c.ensure_fact('wide', len(big) == 123456 and big[7] == 'q-000007-of-123456')
