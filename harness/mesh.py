"""Logical meshes of described devices, and of real ones of several processes."""
import itertools
import os
from unittest import mock

from common import H, attempt
import jax
import numpy as np

NPROC = int(os.environ['VERIF_NPROC'])
PROC = int(os.environ['VERIF_PROC'])
if NPROC > 1:
  jax.config.update('jax_cpu_collectives_implementation', 'gloo')
  jax.distributed.initialize('127.0.0.1:' + os.environ['VERIF_PORT'], NPROC,
                             PROC)
from vmoe import partitioning  # pylint: disable=g-import-not-at-top

h = H()


class Dev:
  """A device as JAX describes it."""

  def __init__(self, at, platform, pid, num, process_index):
    self.at, self.platform, self.id = at, platform, num
    self.process_index = process_index
    self.local_hardware_id = None
    self.device_kind = platform
    if platform == 'tpu':
      self.core_on_chip, self.coords = at[0], list(at[1:])


def describe(c):
  hs, ls = c['hs'], c['ls']
  procs = list(itertools.product(*[range(s // l) for s, l in zip(hs, ls)]))
  devs = []
  order = list(itertools.product(*map(range, hs)))
  if c['plat'] == 'other':
    order.sort(key=lambda a: (a[1], a[0]))
  for n, at in enumerate(order):
    p = procs.index(tuple(a // l for a, l in zip(at, ls)))
    if c['plat'] == 'other':
      p = at[1]
      # Numbers of devices need not be consecutive across processes.
      n = at[1] * hs[0] * c['gap'] + at[0]
    devs.append(Dev(at, 'tpu' if c['plat'] == 'tpu' else h.rng.choice(['gpu', 'cpu']),
                    0, n, p))
  return devs, len(procs)


def make(c, devs, me):
  mine = [d for d in devs if d.process_index == me]
  h.rng.shuffle(mine)
  with mock.patch.object(jax, 'local_devices', lambda *a, **k: list(mine)), \
       mock.patch.object(jax, 'devices', lambda *a, **k: list(devs)), \
       mock.patch.object(jax, 'process_index', lambda *a, **k: me), \
       mock.patch.object(jax, 'process_count', lambda *a, **k: len(
           set(d.process_index for d in devs))), \
       mock.patch.object(jax, 'device_count', lambda *a, **k: len(devs)), \
       mock.patch.object(jax, 'local_device_count', lambda *a, **k: len(mine)):
    if c['kind'] == 'auto':
      return attempt(partitioning.get_auto_logical_mesh, c['n'],
                     None if c['default'] else list(devs))
    hw = partitioning.get_hardware_mesh_tpu(devs)
    return attempt(partitioning.get_logical_mesh, tuple(c['ps']), hw)


if NPROC == 1:
  cases = list(h.cases)
  h.rng.shuffle(cases)
  for c in cases[:12000 if h.thorough else 2500]:
    c['gap'] = h.rng.choice([1, 1, 4])
    c['default'] = h.rng.random() < .3
    devs, np_ = describe(c)
    h.rng.shuffle(devs)
    meshes = [make(c, devs, p)
              for p in sorted({0, np_ - 1, h.rng.randrange(np_)})]
    m, err = meshes[0]
    rows = [] if err else [[list(d.at) for d in row] for row in m.devices]
    same = all((e == err) and (err or [[list(d.at) for d in row] for row in
                                       o.devices] == rows) for o, e in meshes)
    h.emit(op='mesh', **{k: c[k] for k in ('kind', 'plat', 'hs', 'ls', 'n', 'ps')},
           rejected=bool(err), error=err, mesh=rows, same=bool(same),
           axes=[] if err else list(m.axis_names))
else:
  from jax.experimental import multihost_utils as jmh  # pylint: disable=g-import-not-at-top
  devs = jax.devices()
  local = len(jax.local_devices())
  rank = {d.id: (i, p) for p in range(NPROC) for i, d in enumerate(
      sorted((d for d in devs if d.process_index == p), key=lambda d: d.id))}
  for n in range(1, len(devs) + 2):
    m, err = attempt(partitioning.get_auto_logical_mesh, n,
                     devs if n % 2 else None)
    rows = [] if err else [[list(rank[d.id]) for d in row] for row in m.devices]
    flat = np.full((64,), -1, np.int32)
    ids = [rank[d.id][0] * 100 + rank[d.id][1] for d in
           ([] if err else m.devices.flat)]
    flat[:len(ids)] = ids
    every = np.asarray(jmh.process_allgather(flat))
    h.emit(op='mesh', kind='auto', plat='real', hs=[local, NPROC],
           ls=[local, 1], n=n, ps=[], rejected=bool(err), error=err, mesh=rows,
           same=bool((every == every[0]).all()),
           axes=[] if err else list(m.axis_names))
h.close()
