"""Prefetching to devices: histories of requests, placement of the rows."""
import itertools
import os

from common import H, attempt
import jax
import numpy as np

NPROC = int(os.environ['VERIF_NPROC'])
PROC = int(os.environ['VERIF_PROC'])
if NPROC > 1:
  jax.config.update('jax_cpu_collectives_implementation', 'gloo')
  jax.distributed.initialize('127.0.0.1:' + os.environ['VERIF_PORT'], NPROC,
                             PROC)
import tensorflow as tf  # pylint: disable=g-import-not-at-top
from vmoe.data import pjit_utils

h = H()
Mesh = jax.sharding.Mesh


class Boom(RuntimeError):
  pass


class Source:
  """A source which counts what it has handed over."""

  def __init__(self, spec, rows):
    self.n, self.err, self.taken, self.rows = spec['n'], spec['err'], 0, rows

  def __iter__(self):
    return self

  def __next__(self):
    if self.err == self.taken + 1:
      raise Boom('no more')
    if self.taken >= self.n:
      raise StopIteration
    self.taken += 1
    x = np.arange(self.rows, dtype=np.int32) + 1000 * self.taken
    s = np.array([b'%d' % i for i in x])
    return {'x': x, 'deep': [(x % 2 == 0, tf.constant(x, tf.float32))],
            's': s, 't': tf.constant([str(i) for i in x]),
            'r': tf.ragged.constant([list(range(i % 3)) for i in x])}


def mesh_of(shape=None):
  devs = jax.devices()
  shape = shape or h.rng.choice([(4,), (2, 2), (1, 4), (4, 1)])
  devs = devs[:int(np.prod(shape))]
  if h.rng.random() < .5:
    h.rng.shuffle(devs)
  return Mesh(np.array(devs).reshape(shape), tuple('abcd'[:len(shape)]))


def host_ok(e, rows, i):
  x = np.arange(rows, dtype=np.int32) + 1000 * i
  return (np.asarray(e['s']).tolist() == [b'%d' % v for v in x]
          and np.asarray(e['t']).tolist() == [b'%d' % v for v in x]
          and isinstance(e['r'], tf.RaggedTensor)
          and e['r'].to_list() == [list(range(v % 3)) for v in x]
          and isinstance(e['x'], jax.Array)
          and np.asarray(e['deep'][0][0]).tolist() == (x % 2 == 0).tolist()
          and np.asarray(e['deep'][0][1]).tolist() == x.tolist())


def history(srcs):
  rows = 4 * h.rng.choice([1, 2])
  mesh = mesh_of()
  active = h.rng.random() < .5
  ss = [Source(s, rows) for s in srcs]
  its, events, over = [], [], set()
  # Sometimes the buffer has no size at all.
  sizes = [s['size'] if s['size'] else h.rng.choice([0, None, -1]) for s in srcs]

  def start(s, size):
    return iter(pjit_utils.prefetch_to_device(s, size, mesh))

  if active:
    with mesh:
      # As a generator, it looks for the mesh when it is first asked.
      its = [iter(pjit_utils.prefetch_to_device(s, z)) for s, z in zip(ss, sizes)]
      run(its, ss, srcs, rows, events, over)
  else:
    its = [start(s, z) for s, z in zip(ss, sizes)]
    run(its, ss, srcs, rows, events, over)
  h.emit(op='iter', src=srcs, events=events)


def run(its, ss, srcs, rows, events, over):
  stop = h.rng.randint(1, 30) if h.rng.random() < .3 else 99
  for _ in range(stop):
    open_ = [i for i in range(len(its)) if i not in over]
    if not open_:
      break
    i = h.rng.choice(open_)
    try:
      e = next(its[i])
      first = int(np.asarray(e['x'])[0]) // 1000
      events.append(dict(it=i + 1, kind='elem', id=first, taken=ss[i].taken,
                         host=bool(host_ok(e, rows, first))))
    except StopIteration:
      events.append(dict(it=i + 1, kind='end', id=0, taken=ss[i].taken, host=True))
      over.add(i)
    except Boom:
      events.append(dict(it=i + 1, kind='error', id=0, taken=ss[i].taken, host=True))
      over.add(i)


DTYPES = ['int32', 'uint8', 'float32', 'bool', 'float16', 'int8']


def shards(rows, rest, dtype, kind, mesh):
  """Element 0 of a row is its number; the rest is derived from it."""
  local = mesh.local_devices
  base = np.arange(rows).reshape((rows,) + (1,) * len(rest))
  x = (base + 7 * np.arange(int(np.prod(rest))).reshape((1, *rest))).astype(dtype)
  marks = np.arange(rows, dtype=np.int32)
  src = x if kind == 'numpy' else tf.constant(x)
  it = pjit_utils.prefetch_to_device(iter([{'x': src, 'm': marks}]),
                                     h.rng.choice([0, 1, 3]), mesh)
  got, err = attempt(next, it)
  if err:
    h.emit(op='shards', rows=rows, local=len(local), rejected=True)
    return
  a, m = got['x'], got['m']
  per = {s.device: s for s in a.addressable_shards}
  mer = {s.device: s for s in m.addressable_shards}
  ds = tf.data.Dataset.from_tensors({'x': x, 'm': marks})
  if h.rng.random() < .5:
    with mesh:
      st = pjit_utils.get_dataset_shape_dtype_struct(ds)['x']
  else:
    st = pjit_utils.get_dataset_shape_dtype_struct(ds, mesh)['x']
  sh = [np.asarray(mer[d].data).tolist() if d in mer else [-1] for d in local]
  values = all(
      d in per and np.asarray(per[d].data).dtype == x.dtype and np.array_equal(
          np.asarray(per[d].data), x[np.asarray(mer[d].data)]) for d in local)
  flat = list(mesh.devices.flat)
  h.emit(op='shards', rows=rows, local=len(local), rejected=False, shards=sh,
         procs=NPROC, shape=list(a.shape), rest=list(rest), values=bool(values),
         mesh=[flat.index(d) for d in local],
         positions=[(per[d].index[0].start or 0) for d in local],
         sshape=list(st.shape), dtype=str(np.dtype(a.dtype)), sdtype=str(np.dtype(st.dtype)),
         samesharding=bool(st.sharding.is_equivalent_to(a.sharding, a.ndim)))


if NPROC == 1:
  cases = list(h.cases)
  h.rng.shuffle(cases)
  for c in cases[:6000 if h.thorough else 260]:
    history(c)
if NPROC > 1:
  both = jax.devices()
  L = jax.local_device_count()
  inter = [both[p * L + i] for i in range(L) for p in range(NPROC)]
  meshes = [Mesh(np.array(v).reshape(s), tuple('abc'[:len(s)]))
            for v in (both, both[::-1], inter)
            for s in [(len(both),), (NPROC, L), (L, NPROC)]]
else:
  meshes = [mesh_of(s) for s in [(1,), (2,), (3,), (4,), (2, 2), (1, 3), (2, 1), (1, 4, 1)]]
for mesh in meshes:
  for rows in range(1, 13):
    shards(rows, h.rng.choice([(), (2,), (1, 3)]), h.rng.choice(DTYPES),
           h.rng.choice(['numpy', 'tf']), mesh)
h.close()
