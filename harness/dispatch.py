"""Dispatch -> experts -> combine, for every dispatcher, layout and sharding."""
import contextlib

import jax
import jax.numpy as jnp
import numpy as np
from common import H, ints
from jax.sharding import Mesh, NamedSharding, PartitionSpec
from vmoe import moe

h = H()
SCALE = 64
SHAPES = [(), (3,), (2, 2), (1, 3)]


def build(kind, gates, K, C, **kw):
  """gates: (G, S, E)."""
  if kind in ('einsum', 'indices'):
    return jax.vmap(lambda g: moe.get_top_experts_per_item_dispatcher(
        g, name=kind, num_selected_experts=K, batch_priority=False, capacity=C,
        **kw))(gates)
  if kind == 'items':
    return jax.vmap(lambda g: moe.get_top_items_per_expert_dispatcher(
        g, name='einsum', capacity=C, **kw))(gates)[0]
  if kind == 'dense':
    return jax.vmap(lambda g: moe.get_dense_einsum_dispatcher(g, **kw))(gates)
  if kind == 'implicit':  # dispatch weights derived from the combine weights
    d = build('einsum', gates, K, C)
    return moe.EinsumDispatcher(combine_weights=d.combine_weights, **kw)
  raise ValueError(kind)


def accepted(kind, gates, K, C):
  """Pairs accepted when each group is routed on its own, by one-hot probes."""
  G, S, E = gates.shape
  acc = []
  if kind == 'dense':
    return [[g + 1, s + 1, e + 1] for g in range(G) for s in range(S)
            for e in range(E)]
  ref = 'items' if kind == 'items' else 'einsum'
  fn = jax.jit(lambda x: build(ref, x, K, C).dispatch(
      jnp.eye(S).reshape(1, S, S)))
  for g in range(G):
    got = np.asarray(fn(gates[g:g + 1]))
    for e, _, s in np.argwhere(got != 0):
      acc.append([g + 1, int(s) + 1, int(e) + 1])
  return acc


def apply(disp, x):
  rows = disp.dispatch(x)
  E = rows.shape[0]
  e = jnp.arange(1, E + 1, dtype=x.dtype).reshape(
      (E,) + (1,) * (rows.ndim - 1))
  out = disp.combine(rows * (e + 1) + 100 * e)
  return rows, out


def run_case(G, S, E, K, C, variant, shard=None):
  kind, *opts = variant.split('+')
  gates = h.np.randint(1, SCALE, (G, S, E)) / SCALE
  shape = h.rng.choice(SHAPES)
  n = int(np.prod(shape, dtype=int))
  ids = h.np.permutation(250)[:G * S] + 1
  x = (ids.reshape(G, S, 1) + np.arange(n) * 3 % 5) * np.where(
      np.arange(n) % 2, -1, 1)
  x = x.reshape((G, S) + shape)
  acc = accepted(kind, jnp.asarray(gates, jnp.float32), K, C)
  kw, ctx = {}, contextlib.nullcontext()
  gx = jnp.asarray(gates, jnp.float32), jnp.asarray(x, jnp.float32)
  if shard:
    mesh_shape, spec = shard
    mesh = Mesh(np.asarray(jax.devices()).reshape(mesh_shape),
                ('expert', 'replica'))
    kw, ctx = dict(partition_spec=spec), mesh
    gx = jax.device_put(gx, NamedSharding(
        mesh, PartitionSpec(('expert', 'replica'))))
  bf16 = 'bf16' in opts

  def fn(g, y):
    d = build(kind, g, K, C, **kw)
    if bf16:
      d = moe.Bfloat16Dispatcher(d)
    return apply(d, y)
  with ctx:
    rows, out = jax.jit(fn)(*gx) if 'eager' not in opts else fn(*gx)
  if kind == 'dense':
    C = S
  h.emit(op='dispatch', variant=variant + ('+sharded' if shard else ''),
         G=G, S=S, E=E, K=K, C=C, scale=SCALE, loose=bf16,
         dtype_kept=bool(rows.dtype == jnp.float32 and out.dtype == jnp.float32
                         and rows.shape[2:] == tuple(shape)
                         and out.shape == (G, S) + tuple(shape)),
         gates=ints(gates, SCALE), x=ints(x.reshape(G, S, n)),
         rows=ints(np.asarray(rows).reshape(E, -1, n)),
         out=(np.rint(np.asarray(out, np.float64).reshape(G, S, -1) * SCALE)
              .astype(int).tolist() if bf16 else
              ints(np.asarray(out).reshape(G, S, -1), SCALE)), accepted=acc)


cases = list(h.cases)
h.rng.shuffle(cases)
for G, E, C, K, variant in cases[:600 if h.thorough else 110]:
  S = h.rng.randint(max(C, 1), 5)
  run_case(G, S, E, K, C, variant)
# Eight devices.
D = len(jax.devices())
assert D == 8
for t in range(60 if h.thorough else 18):
  mesh_shape = h.rng.choice([(8, 1), (4, 2), (2, 4), (1, 8)])
  E = h.rng.choice([1, 2, 4, 8])
  G = h.rng.choice([8, 16])
  variant = ['einsum', 'indices', 'items', 'dense', 'implicit', 'einsum+bf16',
             'indices+bf16'][t % 7]
  spec = h.rng.choice([
      PartitionSpec(('expert', 'replica')), (('expert', 'replica'),),
      PartitionSpec('expert'), 'expert'])
  run_case(G, h.rng.randint(2, 6), E, h.rng.randint(1, min(2, E)),
           2, variant, (mesh_shape, spec))
h.close()
