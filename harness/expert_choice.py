"""Top-items-per-expert routing observed through dispatch() and combine()."""
import functools

import jax
import jax.numpy as jnp
import numpy as np
from common import H
from vmoe import moe
from vmoe.nn import routing

h = H()


def _see(disp, metrics, G, S, E):
  got = disp.dispatch(jnp.eye(G * S).reshape(G, S, G * S))
  n = E * got.shape[1]
  w = disp.combine(jnp.eye(n).reshape(E, got.shape[1], n))
  return got, w, metrics


@functools.lru_cache(None)
def runner(G, S, E, C):
  @jax.jit
  def run(gates):
    disp, metrics = jax.vmap(
        lambda g: moe.get_top_items_per_expert_dispatcher(
            g, name='einsum', capacity=C))(gates)
    return _see(disp, metrics, G, S, E)
  return run


def router_runner(G, S, E, C, factor, det):
  kw = dict(capacity=C) if factor is None else dict(
      capacity_factor=factor, capacity_multiple_of=None)
  router = routing.NoisyTopItemsPerExpertRouter(
      num_experts=E, deterministic=det, noise_std=1.0 if det else 0.0,
      dispatcher=dict(name='einsum', **kw))
  @jax.jit
  def run(logits):
    disp, metrics = router.apply(
        {'params': {'dense': {'kernel': jnp.eye(E)}}}, logits)
    return _see(disp, metrics, G, S, E)
  return run


def near(x):
  return int(round(x)) if np.isfinite(x) and abs(x - round(x)) < 1e-3 else -1


def observe(gates, C, src, run=None, arg=None, tol=0):
  G, S, E = gates.shape
  scale = 1000000 if tol else 1024
  run = run or runner(G, S, E, C)
  got, w, metrics = run(
      jnp.asarray(gates / scale if arg is None else arg, jnp.float32))
  got, w = np.asarray(got, np.float64), np.asarray(w, np.float64)
  metrics = {k: np.broadcast_to(np.asarray(v, np.float64), (G,))
             for k, v in metrics.items()}
  npos = got.shape[1]
  w = w.reshape(G, S, E, npos) * scale
  placed = [[] for _ in range(G)]
  owners = {}
  for e, p, i in np.argwhere(got != 0):
    g, s = divmod(int(i), S)
    c = got[e, p, i]
    placed[g].append([s + 1, int(e) + 1, int(p), int(c) if c == int(c) else -1])
    owners.setdefault((int(e), int(p)), set()).add(g)
  weights = [[] for _ in range(G)]
  for g, s, e, p in np.argwhere(w != 0):
    x = w[g, s, e, p]
    weights[int(g)].append([int(s) + 1, int(e) + 1, int(p),
                            int(x) if x == int(x) else
                            int(round(x)) if tol else -1])
  pre = 'ratio_processed_items_by_at_least_'
  for g in range(G):
    def m(k):
      return float(metrics[k][g]) if k in metrics else float('nan')
    def gate(k):
      x = m(k) * scale
      return int(round(x)) if np.isfinite(x) else -9999
    h.emit(op='choice', src=src, C=C, gates=gates[g].tolist(),
           placed=placed[g], weights=weights[g], npos=int(npos), groups=G,
           shared=sum(len(owners[(e - 1, p)]) > 1 for _, e, p, _ in placed[g]),
           tol=tol, minexp=near(m('num_experts_per_item_min')),
           maxexp=near(m('num_experts_per_item_max')),
           mingate=gate('min_selected_gate'), maxgate=gate('max_selected_gate'),
           ratios=[[int(k[len(pre):-len('_experts')]), near(m(k) * S)]
                   for k in metrics if k.startswith(pre)])


GB = 12
for spec in h.cases:
  S, E = spec['S'], spec['E']
  mats = np.asarray(spec['gates'], np.int64) * 128
  for C in spec['configs']:
    idx = h.np.permutation(len(mats))[:spec['limit']]
    idx = np.concatenate([idx, idx[:(-len(idx)) % GB]])
    for k in range(0, len(idx), GB):
      observe(mats[idx[k:k + GB]], C, 'tlc')

for t in range(300 if h.thorough else 60):
  S, E = h.rng.randint(1, 14), h.rng.randint(1, 9)
  C, G = h.rng.randint(1, S), h.rng.choice([1, 2, 3, E, 2 * E])
  kind = h.rng.choice(['strict', 'tied', 'skew', 'zeros'])
  if kind == 'strict':
    gates = np.stack([h.np.permutation(S * E).reshape(S, E) + 1
                      for _ in range(G)])
  elif kind == 'tied':
    gates = h.np.randint(0, 3, (G, S, E))
  elif kind == 'skew':
    gates = h.np.randint(0, 200, (G, S, E)) + np.arange(S)[::-1, None] * 30
  else:
    gates = h.np.randint(0, 100, (G, S, E)) * (h.np.rand(G, S, E) < .5)
  observe(gates.astype(np.int64), C, 'random')
for t in range(80 if h.thorough else 16):
  G, S, E = h.rng.choice([1, 2, 4]), h.rng.randint(2, 9), h.rng.randint(2, 5)
  factor = h.rng.choice([None, 0.5, 1.0, 1.5])
  C = h.rng.randint(1, S)
  if factor is not None:
    C = int(np.ceil(S * factor / E))
    if C > S:
      factor, C = None, S
  logits = h.np.permutation(G * S * E).reshape(G, S, E) * (4 / (G * S * E))
  p = np.exp(logits) / np.exp(logits).sum(-1, keepdims=True)
  observe(np.rint(p * 1e6).astype(np.int64), C, 'router',
          router_runner(G, S, E, C, factor, h.rng.random() < .5), logits, tol=3)
for S, C in ((300, 280), (700, 10)):
  gates = h.np.permutation(S * 2).reshape(1, S, 2).astype(np.int64) + 1
  observe(gates, C, 'long')
for S, E, C in ((3, 150, 1), (4, 300, 2), (5, 70, 2)):
  # Many experts which mostly agree.
  gates = h.np.randint(1, 100, (1, S, E)) + (np.arange(S) == 1)[:, None] * 60
  observe(gates.astype(np.int64), C, 'wide')
h.close()
