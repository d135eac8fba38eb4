"""Round trips of trees through the serialization and single-file layers."""
import collections
import os
from unittest import mock

import flax
from common import H, attempt
import jax
from jax import core
import jax.numpy as jnp
import ml_dtypes
import numpy as np
from vmoe.checkpoints import base
from vmoe.checkpoints import serialization
from vmoe.checkpoints import types

h = H()
Pair = collections.namedtuple('Pair', ['left', 'right'])
Slice, SliceNd = types.Slice, types.SliceNd


@flax.struct.dataclass
class Node:
  beta: object
  alpha: object


def bits(dt, shape):
  n = int(np.prod(shape, dtype=int))
  dt = np.dtype(dt)
  return np.frombuffer(h.np.bytes(n * dt.itemsize), dt).reshape(shape).copy()


def leaf(k):
  r = h.rng.randint(1, 6)
  if k in ('float32', 'int8', 'float64', 'complex64', 'uint16'):
    return bits(k, (r, 3))
  return {
      'bfloat16': lambda: bits(ml_dtypes.bfloat16, (3, r)),
      'bool': lambda: h.np.rand(r, 2) < .5,
      'empty': lambda: np.zeros((0,), np.int16),
      'empty2': lambda: np.zeros((3, 0, 2), ml_dtypes.bfloat16),
      'scalar0': lambda: np.array(1.5, np.float16),
      'fortran': lambda: np.asfortranarray(bits('int32', (3, r + 1))),
      'strided': lambda: bits('int32', (6, 6))[::2, 1::3],
      'jax': lambda: jnp.asarray(h.np.randn(r, 2).astype(np.float32)),
      'jaxbf16': lambda: jnp.asarray(h.np.randn(r, 2), jnp.bfloat16),
      'big': lambda: bits('int64', (17, 3)),
      'npscalar': lambda: np.float32(h.np.randn()),
      'npbf16': lambda: ml_dtypes.bfloat16(h.np.randn()),
      'npbool': lambda: np.bool_(r % 2 == 0),
      'int': lambda: r, 'negint': lambda: -12345678901,
      'bigint': lambda: 2**63 + 11, 'float': lambda: h.rng.random(),
      'nan': lambda: float('nan'), 'inf': lambda: -float('inf'),
      'str': lambda: 'text', 'unicode': lambda: 'é漢\n', 'bytes': lambda: b'\x00\xff\x10',
      'true': lambda: True, 'none': lambda: None, 'complex': lambda: 1.5 - 2j,
      'shaped': lambda: core.ShapedArray((r, 3), jnp.bfloat16),
      'weak': lambda: core.ShapedArray((), jnp.float32, weak_type=True),
      'slice': lambda: Slice(r, r + 4, 2), 'slicenone': lambda: Slice(None, -3),
      'slicend': lambda: SliceNd(Slice(0, 4), Slice(2, 10**10)),
      'slicend0': lambda: SliceNd(),
      'slicendarray': lambda: types.SliceNdArray.create(
          [SliceNd(Slice(i, i + 1), Slice(0, r)) for i in range(6)], (2, 3)),
      'slicendarrayT': lambda: types.SliceNdArray(types.SliceNdArray.create(
          [SliceNd(Slice(i, i + 1), Slice(0, r)) for i in range(6)], (2, 3)).T),
      'indexinfo': lambda: types.IndexInfo(
          core.ShapedArray((r, 3), jnp.int8),
          (SliceNd(Slice(0, r), Slice(0, 1)), SliceNd(Slice(0, r), Slice(1, 3))),
          (1, 0)),
      'emptydict': lambda: {}, 'emptystr': lambda: ''}[k]()


def build(shape, a, b, c):
  if shape == 'leaf':
    return a
  return {
      'dict': lambda: {'z': a, 'y': {'x': b, '0': c}, 'w': {}},
      'list': lambda: [a, [b, [c]], []],
      'tuple': lambda: (a, (b,), (), (c, a)),
      'named': lambda: Pair(Pair(a, b), {'k': c}),
      'struct': lambda: Node(beta=a, alpha=Node(beta=[b], alpha=c)),
      'mixed': lambda: {'l': [a] + [b] * 11, 't': (c, {'n': Pair(a, 7)})},
      'frozen': lambda: flax.core.freeze({'p': {'q': a, 'r': b}, 's': c}),
  }[shape]()


def tok(x):
  """A tree as tokens (strings)."""
  if isinstance(x, (dict, flax.core.FrozenDict)):
    out = ['frozen{' if isinstance(x, flax.core.FrozenDict) else 'dict{']
    for k in sorted(x):
      out += ['key:' + str(k)] + tok(x[k])
    return out + ['}']
  if isinstance(x, Pair):
    return ['pair('] + tok(x.left) + tok(x.right) + [')']
  if isinstance(x, Node):
    return ['node('] + tok(x.alpha) + tok(x.beta) + [')']
  if isinstance(x, SliceNd):
    return ['slicend('] + [t for s in x for t in tok(s)] + [')']
  if isinstance(x, (list, tuple)):
    name = type(x).__name__
    return [name + '('] + [t for v in x for t in tok(v)] + [')']
  if isinstance(x, Slice):
    return ['slice', repr(x.tuple)]
  if isinstance(x, types.SliceNdArray):
    return ['slicendarray', str(x.shape)] + [t for v in x.flat for t in tok(v)]
  if isinstance(x, types.IndexInfo):
    return (['indexinfo'] + tok(x.global_shape) +
            [t for v in x.global_slices for t in tok(v)] +
            [str(list(map(int, x.shards)))])
  if isinstance(x, core.ShapedArray):
    return ['shaped', str(tuple(x.shape)), str(x.dtype), str(bool(x.weak_type))]
  if isinstance(x, (np.ndarray, jax.Array)):
    return ['array', str(x.dtype), str(x.shape), np.asarray(x).tobytes().hex()]
  if isinstance(x, np.generic):
    return ['npscalar', str(x.dtype), x.tobytes().hex()]
  if isinstance(x, bytes):
    return ['bytes', x.hex()]
  return [type(x).__name__, repr(x)]


def blank(x):
  """A target of the same structure with other leaves."""
  if isinstance(x, Pair):
    return Pair(blank(x.left), blank(x.right))
  if isinstance(x, Node):
    return Node(beta=blank(x.beta), alpha=blank(x.alpha))
  if isinstance(x, SliceNd):
    return 0
  if isinstance(x, flax.core.FrozenDict):
    return flax.core.freeze({k: blank(v) for k, v in x.items()})
  if isinstance(x, dict):
    return {k: blank(v) for k, v in x.items()}
  if isinstance(x, (list, tuple)):
    return type(x)(blank(v) for v in x)
  return 0


cases = list(h.cases)
h.rng.shuffle(cases)
if not h.thorough:
  cases = cases[:3000]
state = serialization.to_state_dict
SPECIAL = ('slicendarray', 'slicendarrayT', 'slicend', 'slicend0', 'bigint')
for n, c in enumerate(cases):
  if c['b'] in ('slicend', 'slicend0') and c['shape'] != 'leaf':
    # A SliceNd is a tuple: inside a tree the state dict takes it apart.
    c['b'] = 'slice'
  if c['b'].startswith('slicendarray'):
    c['limit'] = 0
  a, b = leaf(c['a']), leaf(c['b'])
  tree = b if c['shape'] == 'leaf' and n % 2 else build(
      c['shape'], a, b, leaf(h.rng.choice(['int8', 'str', 'float32', 'scalar0'])))
  if isinstance(tree, (SliceNd, types.SliceNdArray, type(None))):
    tree = {'v': [1, 2]}
  before = tok(tree)
  lim = c['limit'] or 2**30
  with mock.patch.object(flax.serialization, 'MAX_CHUNK_SIZE', lim), \
       mock.patch.object(serialization, '_MAX_CHUNK_SIZE', lim, create=True):
    def go():
      if n % 3 == 0:
        path = os.path.join(h.work, f'f{n}')
        base.save_checkpoint(path, tree)
        out = (base.restore_checkpoint(path),
               base.restore_checkpoint(path, blank(tree)))
        os.remove(path)
        return out
      data = serialization.to_bytes(tree)
      return (serialization.msgpack_restore(data),
              serialization.from_bytes(blank(tree), data))
    got, err = attempt(go)
  raw, tgt = got if got is not None else (None, None)
  h.emit(op='tree', shape=c['shape'], a=c['a'], b=c['b'], limit=c['limit'],
         error=err, state=tok(state(tree)), state_got=tok(raw), tree=before,
         tree_got=tok(tgt), after=tok(tree))

# Types which appear as leaves of the low-level encoder.
for k in ('slicend', 'slicend0', 'slicendarray', 'slicendarrayT', 'slice', 'shaped', 'weak',
          'indexinfo', 'complex', 'npscalar', 'bytes', 'none'):
  for _ in range(6):
    v = {'x': leaf(k), 'y': {'z': leaf(k)}}
    before = tok(v)
    got, err = attempt(lambda: serialization.msgpack_restore(
        serialization.msgpack_serialize(v)))
    h.emit(op='tree', shape='lowlevel', a=k, b=k, limit=0, error=err,
           state=before, state_got=tok(got), tree=before, tree_got=tok(got),
           after=tok(v))

# Chunks of arrays.
for n in range(250 if not h.thorough else 2500):
  lazy, want = types.LazyArrayChunks(), []
  for idx in h.rng.sample([0, 1, 2, 7, 10, 123], h.rng.randint(0, 4)):
    for _ in range(h.rng.randint(1, 3)):
      nd = h.rng.randint(0, 3)
      shape = tuple(h.rng.randint(1, 5) for _ in range(nd))
      arr = bits(h.rng.choice(['float32', 'int8', ml_dtypes.bfloat16]), shape)
      lo = [h.rng.randint(0, s) for s in shape]
      hi = [h.rng.randint(l, s) for l, s in zip(lo, shape)]
      off = [h.rng.randint(0, 9) for _ in shape]
      gs = SliceNd([Slice(l + o, u + o) for l, u, o in zip(lo, hi, off)])
      lazy.add(idx, arr, SliceNd([Slice(l, u) for l, u in zip(lo, hi)]), gs)
      cutv = arr[tuple(slice(l, u) for l, u in zip(lo, hi))]
      want.append((idx, ['#%d' % idx] + tok(np.asarray(cutv)) + tok(gs)))
  lim = h.rng.choice([1, 2, 5, 8, 30, 2**30])
  with mock.patch.object(serialization, '_MAX_CHUNK_SIZE', lim, create=True):
    got, err = attempt(lambda: serialization.from_bytes(
        types.ArrayChunks(), serialization.to_bytes(lazy)))
  out = []
  if got is not None:
    for idx in sorted(got.chunks):
      for ch, gs in got.iter_chunks(idx):
        out += ['#%d' % idx] + tok(np.asarray(ch)) + tok(gs)
  h.emit(op='chunks', limit=lim, error=err, got=out,
         want=[t for _, w in sorted(want, key=lambda p: p[0]) for t in w])

data = serialization.to_bytes({'a': np.arange(3), 'b': {'c': 1}, 'l': [1, 2]})
for what, tgt in (
                  ('absent', {'a': 0, 'b': {'c': 0}, 'l': [0, 0], 'd': 0}),
                  ('renamed', {'a': 0, 'b': {'x': 0}, 'l': [0, 0]}),
                  ('shortlist', {'a': 0, 'b': {'c': 0}, 'l': [0]}),
                  ('longlist', {'a': 0, 'b': {'c': 0}, 'l': [0, 0, 0]}),
                  ('struct', Node(beta=0, alpha=0))):
  _, err = attempt(serialization.from_bytes, tgt, data)
  h.emit(op='reject', what=what, rejected=bool(err))
for k in range(1, len(data), 7):
  _, err = attempt(serialization.msgpack_restore, data[:k])
  h.emit(op='reject', what='truncated', rejected=bool(err))
h.close()
os._exit(0)
