"""Top-experts-per-item routing observed through dispatch() and combine()."""
import functools
import itertools

import jax
import jax.numpy as jnp
import numpy as np
from common import H
from vmoe import moe
from vmoe.nn import routing

h = H()
SCALE = 1024


@functools.lru_cache(None)
def runner(G, S, E, K, C, bpr, name):
  @jax.jit
  def run(gates):
    disp = jax.vmap(lambda g: moe.get_top_experts_per_item_dispatcher(
        g, name=name, num_selected_experts=K, batch_priority=bpr,
        capacity=C))(gates)
    items = jnp.eye(G * S).reshape(G, S, G * S)
    got = disp.dispatch(items)                     # (E, G*C, G*S)
    n = E * got.shape[1]
    slots = jnp.eye(n).reshape(E, got.shape[1], n)
    w = disp.combine(slots)                        # (G, S, n)
    return got, w
  return run


@functools.lru_cache(None)
def router_runner(G, S, E, K, C, factor, bpr, name, det):
  """The same observations, through the router module."""
  kw = dict(capacity=C) if factor is None else dict(
      capacity_factor=factor, capacity_multiple_of=None)
  router = routing.NoisyTopExpertsPerItemRouter(
      num_experts=E, num_selected_experts=K, deterministic=det,
      noise_std=1.0 if det else 0.0,
      dispatcher=dict(name=name, batch_priority=bpr, **kw))
  @jax.jit
  def run(logits):
    disp, _ = router.apply({'params': {'dense': {'kernel': jnp.eye(E)}}},
                           logits)
    got = disp.dispatch(jnp.eye(G * S).reshape(G, S, G * S))
    n = E * got.shape[1]
    return got, disp.combine(jnp.eye(n).reshape(E, got.shape[1], n))
  return run


def observe(gates, K, C, bpr, name, src, run=None, arg=None, tol=0):
  """gates: (G, S, E) integers in units of 1/SCALE."""
  G, S, E = gates.shape
  SCALE = 1000000 if tol else 1024
  run = run or runner(G, S, E, K, C, bpr, name)
  got, w = run(jnp.asarray(gates / SCALE if arg is None else arg, jnp.float32))
  got = np.asarray(got, np.float64)
  w = np.asarray(w, np.float64)
  npos = got.shape[1]
  w = w.reshape(G, S, E, npos) * SCALE
  placed = [[] for _ in range(G)]
  for e, p, i in np.argwhere(got != 0):
    g, s = divmod(int(i), S)
    c = got[e, p, i]
    placed[g].append([s + 1, int(e) + 1, int(p),
                      int(c) if c == int(c) else -1])
  weights = [[] for _ in range(G)]
  for g, s, e, p in np.argwhere(w != 0):
    x = w[g, s, e, p]
    weights[int(g)].append([int(s) + 1, int(e) + 1, int(p),
                            int(x) if x == int(x) and abs(x) < 2**30 else
                            int(round(x)) if tol and abs(x) < 2**30 else -1])
  # Positions of expert buffers holding something in more than one group.
  owners = {}
  for g in range(G):
    for s, e, p, _ in placed[g]:
      owners.setdefault((e, p), set()).add(g)
  for g in range(G):
    shared = sum(len(owners[(e, p)]) > 1 for _, e, p, _ in placed[g])
    h.emit(op='route', src=src, impl=name, K=K, C=C, bpr=bpr,
           gates=gates[g].tolist(), placed=placed[g], weights=weights[g],
           shared=shared, npos=int(npos), groups=G,
           tol=tol)


GB = 12
for spec in h.cases:
  S, E = spec['S'], spec['E']
  mats = np.asarray(spec['gates'], np.int64) * (SCALE // 8)   # (N, S, E)
  for K, C, bpr, name in spec['configs']:
    idx = h.np.permutation(len(mats))[:spec['limit']]
    pad = (-len(idx)) % GB
    idx = np.concatenate([idx, idx[:pad]])
    for k in range(0, len(idx), GB):
      observe(mats[idx[k:k + GB]], K, C, bpr, name, 'tlc')

# Beyond the enumerated sizes: random strict, tied and skewed gates.
n = 400 if h.thorough else 60
for t in range(n):
  S, E = h.rng.randint(1, 14), h.rng.randint(1, 7)
  K = h.rng.randint(1, E)
  C = h.rng.randint(1, S + 1)
  G = h.rng.choice([1, 2, 3, E, 2 * E])
  kind = h.rng.choice(['strict', 'tied', 'skew', 'zeros'])
  if kind == 'strict':
    gates = np.stack([h.np.permutation(S * E).reshape(S, E) + 1
                      for _ in range(G)])
  elif kind == 'tied':
    gates = h.np.randint(0, 3, (G, S, E))
  elif kind == 'skew':
    gates = h.np.randint(0, 200, (G, S, E)) + np.arange(E)[::-1] * 100
  else:
    gates = h.np.randint(0, 100, (G, S, E)) * (h.np.rand(G, S, E) < .5)
  for name in ('einsum', 'indices'):
    observe(gates.astype(np.int64), K, C, h.rng.random() < .5, name, 'random')
# Long groups, where narrow counters would overflow.
for S, E, K, C in ([(300, 2, 2, 270), (700, 2, 1, 600)] +
                   ([(2600, 2, 1, 2300)] if h.thorough else [])):
  gates = np.stack([h.np.permutation(S * 2).reshape(S, 2) + 1
                    for _ in range(1)]).astype(np.int64)
  gates[..., 0] += S
  for bpr, name in itertools.product((False, True), ('einsum', 'indices')):
    observe(gates, K, C, bpr, name, 'long')
# Through the router module, whose gates are the softmax of the logits.
for t in range(120 if h.thorough else 24):
  G, S, E = h.rng.choice([1, 2, 4]), h.rng.randint(2, 9), h.rng.randint(2, 5)
  K = h.rng.randint(1, E)
  factor = h.rng.choice([None, 0.5, 1.0, 1.5])
  C = h.rng.randint(1, S)
  if factor is not None:
    C = int(np.ceil(S * K * factor / E))
  logits = h.np.permutation(G * S * E).reshape(G, S, E) * (4 / (G * S * E))
  p = np.exp(logits) / np.exp(logits).sum(-1, keepdims=True)
  gates = np.rint(p * 1e6).astype(np.int64)
  bpr, name = h.rng.random() < .5, h.rng.choice(['einsum', 'indices'])
  observe(gates, K, C, bpr, name, 'router',
          router_runner(G, S, E, K, C, factor, bpr, name, h.rng.random() < .5),
          logits, tol=3)
h.close()
