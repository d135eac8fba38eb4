"""Sharded checkpoints: real saves and restores, one or several processes."""
import collections
import os
import re
import shutil

import flax
from common import H, attempt
import jax
import jax.numpy as jnp
import ml_dtypes
import numpy as np

NPROC = int(os.environ['VERIF_NPROC'])
PROC = int(os.environ['VERIF_PROC'])
if NPROC > 1:
  jax.config.update('jax_cpu_collectives_implementation', 'gloo')
  jax.distributed.initialize('127.0.0.1:' + os.environ['VERIF_PORT'], NPROC,
                             PROC)
from jax.experimental import multihost_utils as jmh  # pylint: disable=g-import-not-at-top
from jax.sharding import Mesh, NamedSharding, PartitionSpec
from vmoe.checkpoints import base
from vmoe.checkpoints import partitioned
from vmoe.checkpoints import types

h = H()
barrier_n = [0]


def barrier():
  barrier_n[0] += 1
  if NPROC > 1:
    jmh.sync_global_devices(f'verif{barrier_n[0]}')


@flax.struct.dataclass
class State:
  step: object
  params: object


Pair = collections.namedtuple('Pair', ['left', 'right'])


def layout(spec_case, rank):
  mesh_shape, spec, order = spec_case
  devs = np.asarray(jax.devices())
  assert len(devs) == 8
  if np.prod(mesh_shape) == 6:
    # Leaves out two devices, but every process keeps some.
    own = [[d for d in devs if d.process_index == p] for p in range(NPROC)]
    devs = np.asarray([d for row in zip(*own) for d in row][:6])
  if order == 'reversed':
    devs = devs[::-1]
  elif order == 'interleaved':
    devs = devs.reshape(2, -1).T.reshape(-1)
  mesh = Mesh(devs.reshape(mesh_shape), ('x', 'y'))
  def entry(s):
    return None if not s else s if len(s) == 1 else tuple(s)
  e = [entry(s) for s in spec]
  if rank == 0:
    return NamedSharding(mesh, PartitionSpec())
  if rank == 1:
    return NamedSharding(mesh, PartitionSpec(e[0]))
  if rank == 2:
    return NamedSharding(mesh, PartitionSpec(*e))
  return NamedSharding(mesh, PartitionSpec(None, *e))


def content(shape, dtype, base_id):
  n = int(np.prod(shape, dtype=int))
  if dtype == 'int32' and base_id:
    return (np.arange(n, dtype=np.int32) + base_id).reshape(shape)
  rs = np.random.RandomState(h.seed + n + len(dtype) + base_id)
  dt = np.dtype(getattr(ml_dtypes, dtype) if dtype == 'bfloat16' else dtype)
  if dtype == 'bool':
    return rs.rand(*shape) < .5
  raw = rs.bytes(n * dt.itemsize)
  a = np.frombuffer(raw, dt).reshape(shape).copy()
  if dtype == 'complex64':
    return (rs.randn(*shape) + 1j * rs.randn(*shape)).astype(dt)
  return a


def put(a, sharding):
  return jax.make_array_from_callback(a.shape, sharding, lambda i: a[i])


def region(index, shape):
  return [[int(s.start or 0), int(n if s.stop is None else s.stop)]
          for s, n in zip(index, shape)]


def cut(a, reg):
  return a[tuple(slice(lo, hi) for lo, hi in reg)]


def hexs(a):
  return np.ascontiguousarray(a).tobytes().hex()


DTYPES = ['float32', 'bfloat16', 'int8', 'bool', 'float16', 'uint32', 'int16',
          'complex64']
MATS = [(8, 8), (16, 8), (8, 24), (8, 40), (24, 16), (64, 8)]
MATS6 = [(24, 24), (24, 48), (48, 24)]


def six(a, b):
  return 6 in (np.prod(a[0]), np.prod(b[0]))


def make_leaves(case_list):
  """Numpy contents and save/restore shardings of one tree."""
  leaves = []
  for i, (a, b) in enumerate(case_list):
    leaves.append((content(h.rng.choice(MATS6 if six(a, b) else MATS), 'int32',
                           100 + 5000 * i), a, b, 2))
  a, b = case_list[0]
  leaves.append((content((h.rng.choice([24, 48] if six(a, b) else [8, 16, 40]),),
                         h.rng.choice(DTYPES), 0), a, b, 1))
  leaves.append((content((1, 24, 24) if six(a, b) else (3, 8, 8),
                         h.rng.choice(DTYPES), 0), a, b, 3))
  leaves.append((content((), h.rng.choice(['float32', 'int32', 'bfloat16']), 0),
                 a, b, 0))
  leaves.append((content((1,), 'float32', 0), (a[0], ['', ''], a[2]),
                 (b[0], ['', ''], b[2]), 1))
  if h.rng.random() < .4:
    leaves.append((content((0, 8), h.rng.choice(DTYPES), 0),
                   (a[0], ['', ''], a[2]), (b[0], ['', ''], b[2]), 2))
  return leaves


def build(leaves, kind):
  """leaves -> tree; also the canonical nested state dict names."""
  x = leaves
  if kind == 'dict':
    return {'w': x[0], 'blk': {'k': x[1], 'deep': {'b': x[2]}}, 'z': x[3],
            'rest': list(x[4:])}
  if kind == 'state':
    return State(step=x[4], params={'a': x[0], 'b': (x[1], x[2]), 'c': x[3],
                                    'd': list(x[5:])})
  return [Pair(x[0], x[1]), (x[2], [x[3]]), {'0': x[4], '10': x[5:]}]


def names(tree):
  return sorted(jax.tree_util.keystr(k)
                for k, _ in jax.tree_util.tree_flatten_with_path(tree)[0])


def choices(case_list):
  """Maximum chunk size and number of shards."""
  if any(six(a, b) for a, b in case_list):
    return (h.rng.choice([None, 0, 48, 100, 256, 10**6]),
            h.rng.choice([None, 5, 8, 13, 24]))
  return (h.rng.choice([None, 0, 1, 4, 7, 16, 48, 100, 256, 10**6]),
          h.rng.choice([None, 1, 2, 3, 5, 8, 13]))


def restore_case(n, case_list):
  leaves = make_leaves(case_list)
  kind = h.rng.choice(['dict', 'state', 'list'])
  chunk, shards = choices(case_list)
  arrs = [put(a, layout(s, r)) for a, s, _, r in leaves]
  d = os.path.join(h.work, f'c{n}')
  prefix = os.path.join(d, 'ckpt_1')
  kw = {} if chunk is None else dict(max_chunk_bytes=chunk)
  barrier()
  partitioned.save_checkpoint(prefix, build(arrs, kind), num_shards=shards,
                              **kw).get()
  barrier()
  how = h.rng.choice(['arrays', 'structs', 'none'])
  # Indices written before versions were recorded have no version, and number
  # the leaves in the order of the target (the same here for nested dicts).
  legacy = kind == 'dict' and how != 'none' and h.rng.random() < .4
  if legacy and PROC == 0:
    idx = base.restore_checkpoint(prefix + '.index')
    del idx['version']
    base.save_checkpoint(prefix + '.index', idx)
  barrier()
  shr = [layout(t, r) for _, _, t, r in leaves]
  if how == 'arrays':
    target = build([put(np.zeros_like(a), s)
                    for (a, *_), s in zip(leaves, shr)], kind)
  elif how == 'structs':
    target = build([jax.ShapeDtypeStruct(a.shape, a.dtype, sharding=s)
                    for (a, *_), s in zip(leaves, shr)], kind)
  else:
    target = None
    shr = [NamedSharding(Mesh(np.asarray(jax.devices()), 'x'), PartitionSpec())
           ] * len(leaves)
  mcb = h.rng.choice([None, 1, 100, 10**6])
  got = partitioned.restore_checkpoint(prefix, target,
                                       max_concurrent_bytes=mcb)
  if target is not None:
    want_struct = jax.tree_util.tree_structure(target)
    h.emit(op='tree', want=str(want_struct),
           got=str(jax.tree_util.tree_structure(got)))
  else:
    want_tree = flax.serialization.to_state_dict(build(arrs, kind))
    h.emit(op='tree', want=str(jax.tree_util.tree_structure(want_tree)),
           got=str(jax.tree_util.tree_structure(got)))
  order = jax.tree_util.tree_leaves(
      build(list(range(len(leaves))), kind) if target is not None else
      flax.serialization.to_state_dict(build(list(range(len(leaves))), kind)))
  for i, g in zip(order, jax.tree_util.tree_leaves(got)):
    a = leaves[i][0]
    asked = shr[i].devices_indices_map(a.shape)
    devs = []
    for s in g.addressable_shards:
      reg = region(asked[s.device], a.shape)
      devs.append(dict(asked=reg, at=region(s.index, a.shape),
                       got=hexs(np.asarray(s.data)), saved=hexs(cut(a, reg)),
                       cells=np.asarray(s.data).ravel().tolist()
                       if leaves[i][3] == 2 and a.size else []))
    h.emit(op='leaf', nproc=NPROC, shards=shards or 0, chunk=chunk or 0,
           how=how, legacy=bool(legacy), kind=kind, dtype=str(a.dtype),
           dtype_got=str(g.dtype), shape=list(a.shape),
           shape_got=list(g.shape),
           ids=int(a.ravel()[0]) if leaves[i][3] == 2 and a.size else 0, devices=devs,
           sharding_kept=bool(
               g.sharding.is_equivalent_to(shr[i], len(a.shape))))
  barrier()
  if PROC == 0:
    shutil.rmtree(d, ignore_errors=True)


def save_case(n, case_list):
  leaves = make_leaves(case_list)
  kind = h.rng.choice(['dict', 'state', 'list'])
  chunk, shards = choices(case_list)
  arrs = [put(a, layout(s, r)) for a, s, _, r in leaves]
  d = os.path.join(h.work, f's{n}')
  mine = os.path.join(d, f'p{PROC}')
  os.makedirs(mine)
  kw = {} if chunk is None else dict(max_chunk_bytes=chunk)
  barrier()
  # Every process saves to a directory of its own, to see who writes what.
  partitioned.save_checkpoint(os.path.join(mine, 'ckpt_1'), build(arrs, kind),
                              num_shards=shards, makedirs=False, **kw).get()
  barrier()
  if PROC == 0:
    files, chunks, index, nbytes = [], [], None, collections.Counter()
    for p in range(NPROC):
      for f in sorted(os.listdir(os.path.join(d, f'p{p}'))):
        path = os.path.join(d, f'p{p}', f)
        m = re.fullmatch(r'ckpt_1\.data-(\d+)-of-(\d+)', f)
        if m:
          files.append(dict(writer=p, kind='data', shard=int(m[1]),
                            of=int(m[2])))
          got = base.restore_checkpoint(path, types.ArrayChunks())
          for i in got.chunks:
            for c, s in zip(got.chunks[i], got.global_slices[i]):
              chunks.append((int(i), p, int(m[1]), c, s))
        elif f == 'ckpt_1.index':
          files.append(dict(writer=p, kind='index', shard=0, of=0))
          index = base.restore_checkpoint(path)
        else:
          files.append(dict(writer=p, kind=f, shard=0, of=0))
    eff = max(shards or NPROC, NPROC)
    flat = flax.serialization.to_state_dict(
        build(list(range(len(leaves))), kind))
    order = jax.tree_util.tree_leaves(flat)
    infos = [x for x in jax.tree_util.tree_leaves(
        index['index'], is_leaf=lambda v: isinstance(v, types.IndexInfo))]
    largest = 0
    for pos, i in enumerate(order):
      a, s, _, r = leaves[i]
      item = a.dtype.itemsize
      pieces = []
      for k, p, sh, c, sl in chunks:
        if k == pos:
          reg = [[int(x.start), int(x.stop)] for x in sl]
          c = np.asarray(c)
          pieces.append(dict(writer=p, shard=sh, region=reg, ok=bool(
              c.dtype == a.dtype and c.shape == cut(a, reg).shape and
              hexs(c) == hexs(cut(a, reg)))))
          nbytes[sh] += c.size * item
          largest = max(largest, c.size * item)
      tiles = collections.defaultdict(set)
      for dev, ix in layout(s, r).devices_indices_map(a.shape).items():
        tiles[str(region(ix, a.shape))].add(dev.process_index)
      info = infos[pos]
      default = partitioned.MAX_CHUNK_BYTES if chunk is None else chunk
      h.emit(op='saved', nproc=NPROC, shards=eff, chunk=chunk or 0,
             dtype=str(a.dtype), shape=list(a.shape), pieces=pieces,
             maxitems=max(default // item, 1) if default else 0,
             tiles=[dict(region=eval(k), procs=sorted(v))  # pylint: disable=eval-used
                    for k, v in tiles.items()],
             index=[dict(shard=int(q), region=[[int(x.start), int(x.stop)]
                                               for x in sl])
                    for sl, q in zip(info.global_slices, info.shards)],
             index_shape=list(info.global_shape.shape),
             index_dtype=str(info.global_shape.dtype))
    h.emit(op='files', nproc=NPROC, shards=eff, files=files,
           index_shards=int(index['shard_count']), largest=int(largest),
           bytes=[int(nbytes[i]) for i in range(eff)])
  barrier()
  if PROC == 0:
    shutil.rmtree(d, ignore_errors=True)


cases = list(h.cases)
h.rng.shuffle(cases)
n = int(os.environ.get('VERIF_N', '40'))
fn = restore_case if h.part == 'restore' else save_case
for i in range(n):
  fn(i, cases[3 * i:3 * i + 3])
if h.part == 'restore' and NPROC == 1:
  d = os.path.join(h.work, 'r')
  x = jnp.arange(8.)
  for what, tree in (('numpy leaf', {'a': np.arange(3)}), ('int leaf', {'a': 3}),
                     ('mixed', {'a': x, 'b': 'text'})):
    _, err = attempt(lambda t=tree: partitioned.save_checkpoint(
        os.path.join(d, 'ckpt_9'), t).get())
    h.emit(op='reject', what=what, rejected=err == 'ValueError')
  partitioned.save_checkpoint(os.path.join(d, 'ckpt_1'),
                              {'a': x, 'b': {'c': x}}).get()
  for what, tree in (('missing key', {'a': x}), ('extra', {'a': x, 'b': {'c': x},
                                                         'd': x}),
                     ('nesting', {'a': x, 'b': x}), ('name', {'a': x, 'b': {'d': x}})):
    _, err = attempt(partitioned.restore_checkpoint, os.path.join(d, 'ckpt_1'),
                     tree)
    h.emit(op='reject', what=what, rejected=bool(err))
h.close()
