"""Axis resources given by rules, on trees of several kinds."""
import collections
from unittest import mock  # pylint: disable=unused-import

import flax
from common import H, attempt
import jax
import jax.numpy as jnp
import numpy as np
import optax
from jax.sharding import PartitionSpec
import rx
from vmoe import partitioning
from vmoe.train import train_state

h = H()
Pair = collections.namedtuple('Pair', ['a', 'b'])
PATS = h.cases
ENTRIES = [[], ['x'], ['y'], ['x', 'y']]
KEYS = ['a', 'b', 'ab', 'ba', 'aa', 'abc', 'c']


@flax.struct.dataclass
class Node:
  a: object
  ab: object


def spec():
  return [h.rng.choice(ENTRIES) for _ in range(h.rng.randint(0, 3))]


def unparsed(s):
  """One of the ways to write a spec."""
  ent = [None if not e else (e[0] if len(e) == 1 and h.rng.random() < .7 else tuple(e))
         for e in s]
  if not ent:
    return h.rng.choice([None, '', (), [], PartitionSpec()])
  if len(ent) == 1 and isinstance(ent[0], str) and h.rng.random() < .5:
    return ent[0]
  return h.rng.choice([tuple, list, lambda e: PartitionSpec(*e)])(ent)


def canon(p):
  assert isinstance(p, PartitionSpec), type(p)
  return [[] if e is None else [e] if isinstance(e, str) else list(e) for e in p]


def leaf():
  shape = h.rng.choice([(), (1,), (1, 1), (2,), (3, 4), (2, 1, 2), (0,), (0, 3), (5,)])
  return h.rng.choice([np.zeros, jnp.zeros,
                       lambda s: jax.ShapeDtypeStruct(s, np.float32)])(shape)


def tree(depth):
  kind = h.rng.choice(['dict', 'dict', 'dict', 'list', 'tuple', 'pair', 'node',
                       'frozen', 'empty'])
  sub = lambda: leaf() if depth == 0 or h.rng.random() < .4 else tree(depth - 1)
  if kind == 'list':
    return [sub() for _ in range(h.rng.randint(1, 3))]
  if kind == 'tuple':
    return tuple(sub() for _ in range(h.rng.randint(1, 3)))
  if kind == 'pair':
    return Pair(sub(), sub())
  if kind == 'node':
    return Node(sub(), sub())
  if kind == 'empty' and depth:
    return {'a': {}, 'b': sub()}
  d = {k: sub() for k in h.rng.sample(KEYS, h.rng.randint(1, 4))}
  return flax.core.freeze(d) if kind == 'frozen' else d


def walk(t, path=()):
  """(path, leaf) of every leaf; keys as in the state dict."""
  if isinstance(t, (dict, flax.core.FrozenDict)):
    items = t.items()
  elif isinstance(t, Pair):
    items = zip('ab', t)
    items = t._asdict().items()
  elif isinstance(t, Node):
    items = [('a', t.a), ('ab', t.ab)]
  elif isinstance(t, (list, tuple)) and not isinstance(t, PartitionSpec):
    items = [(str(i), v) for i, v in enumerate(t)]
  else:
    return [('/'.join(path), t)]
  return [x for k, v in items for x in walk(v, path + (k,))]


def struct(t):
  return str(jax.tree_util.tree_structure(
      jax.tree_util.tree_map(lambda _: 0, t, is_leaf=lambda v: isinstance(v, PartitionSpec))))


def state():
  params = {k: tree(1) for k in h.rng.sample(KEYS, 2)}
  params = jax.tree_util.tree_map(lambda x: jnp.zeros(x.shape), params)
  tx = optax.adam(1.)
  return jax.eval_shape(lambda p: train_state.TrainState.create(
      apply_fn=None, params=p, tx=tx, rngs={'a': jax.random.PRNGKey(0)}), params)


def flat(t):
  f = flax.traverse_util.flatten_dict(
      flax.serialization.to_state_dict(t), sep='/', keep_empty_nodes=False)
  return list(f.items())


def one(n):
  t = state() if n % 12 == 0 else tree(h.rng.randint(0, 3))
  if isinstance(t, (np.ndarray, jax.Array, jax.ShapeDtypeStruct)):
    t = {'a': t}
  rules = [dict(p=h.rng.choice(PATS), spec=spec()) for _ in range(h.rng.randint(0, 4))]
  before = struct(t)
  got = partitioning.tree_axis_resources_from_regexes(
      tree=t, axis_resources_regexes=[(rx.render(r['p']), unparsed(r['spec']))
                                      for r in rules])
  h.emit(op='tree', struct=struct(got) == before and type(got) is type(t),
         kept=struct(t) == before)
  a, b = (flat(t), flat(got)) if isinstance(t, train_state.TrainState) else (walk(t), walk(got))
  b = dict(b)
  for path, x in a:
    h.emit(op='leaf', path=rx.chars(path),
           size=int(np.prod(x.shape)) if hasattr(x, 'shape') else 1,
           rules=[dict(p=rx.spell(r['p']), spec=r['spec']) for r in rules],
           spec=canon(b[path]) if path in b else ['missing'])
  if isinstance(t, dict) and len(t) > 1:
    again = partitioning.tree_axis_resources_from_regexes(
        tree=dict(reversed(list(t.items()))),
        axis_resources_regexes=[(rx.render(r['p']), unparsed(r['spec'])) for r in rules])
    h.emit(op='order', same={k: canon(v) for k, v in walk(again)} ==
           {k: canon(v) for k, v in b.items()})


for n in range(2500 if h.thorough else 350):
  one(n)
for _ in range(300):
  s = spec()
  h.emit(op='parse', want=s, spec=canon(partitioning.parse_partition_spec(unparsed(s))))
h.close()
