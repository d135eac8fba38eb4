"""Ensemble routing: router observed by dispatch/combine, models by members."""
import functools
import itertools

from common import H, attempt, fixed
import flax
import jax
import jax.numpy as jnp
import numpy as np
from vmoe.nn import ensemble_routing
from vmoe.nn import vit_moe
from vmoe.nn import vit_moe_ensemble

h = H()
SCALE = 1000000
Router = ensemble_routing.NoisyTopExpertsPerItemEnsembleRouter


@functools.lru_cache(None)
def runner(G, S, M, Em, K, C, bpr, name):
  r = Router(num_experts=M * Em, ensemble_size=M, num_selected_experts=K,
             deterministic=True,
             dispatcher=dict(name=name, batch_priority=bpr, capacity=C))
  @jax.jit
  def run(x, kernel):
    disp, _ = r.apply({'params': {'dense': {'kernel': kernel}}}, x)
    got = disp.dispatch(jnp.eye(G * S).reshape(G, S, G * S))
    n = M * Em * got.shape[1]
    return got, disp.combine(jnp.eye(n).reshape(M * Em, got.shape[1], n))
  return run


def observe(ws, M, Em, K, C, bpr, name, src):
  """ws: (G, S, Em) integers; every item has the same total."""
  ws = np.asarray(ws, np.int64)
  G, S, _ = ws.shape
  total = int(ws[0, 0].sum())
  # Every member has its own parameters: a permutation of the inputs.
  perms = [h.np.permutation(Em) for _ in range(M)]
  kernel = np.zeros((Em, M, Em))
  logits = np.where(ws > 0, np.log(np.maximum(ws, 1)), -200.)
  x = np.zeros_like(logits)
  for m in range(M):
    for j in range(Em):
      kernel[perms[m][j], m, j] = 1.
      x[:, m::M, perms[m][j]] = logits[:, m::M, j]
  got, w = runner(G, S, M, Em, K, C, bpr, name)(
      jnp.asarray(x, jnp.float32), jnp.asarray(kernel, jnp.float32))
  got = np.asarray(got, np.float64)
  E, npos = got.shape[:2]
  w = np.asarray(w, np.float64).reshape(G, S, E, npos) * SCALE
  placed = [[] for _ in range(G)]
  for e, p, i in np.argwhere(got != 0):
    g, s = divmod(int(i), S)
    placed[g].append([s + 1, int(e) + 1, int(p), fixed(got[e, p, i], 1)])
  weights = [[] for _ in range(G)]
  for g, s, e, p in np.argwhere(np.abs(w) > .5):
    weights[int(g)].append([int(s) + 1, int(e) + 1, int(p), fixed(w[g, s, e, p], 1)])
  owners = {}
  for g in range(G):
    for s, e, p, _ in placed[g]:
      owners.setdefault((e, p), set()).add(g)
  for g in range(G):
    h.emit(op='route', src=src, impl=name, M=M, Em=Em, K=K, C=C, bpr=bpr,
           w=(ws[g] * (SCALE // total)).tolist(), placed=placed[g], weights=weights[g],
           shared=sum(len(owners[(e, p)]) > 1 for _, e, p, _ in placed[g]),
           npos=int(npos), groups=G, tol=5)


GB = 25
for spec in h.cases:
  M, Em, T = spec['M'], spec['Em'], spec['T']
  for K, C, bpr, name in spec['configs']:
    idx = h.np.permutation(len(spec['groups']))[:GB * (8 if h.thorough else 2)]
    for k in range(0, len(idx) - GB + 1, GB):
      observe([spec['groups'][i] for i in idx[k:k + GB]], M, Em, K, C, bpr, name, 'tlc')
for t in range(40 if h.thorough else 8):
  M, Em, T = h.rng.choice([1, 2, 3, 4]), h.rng.choice([1, 2, 3, 4]), h.rng.randint(1, 6)
  K, C = h.rng.randint(1, Em), h.rng.randint(1, T)
  ws = h.np.multinomial(1000, [1 / Em] * Em, (h.rng.choice([1, 3]), M * T))
  if Em > 1 and t % 2:
    ws[..., 0] += ws[..., -1]   # An expert with no weight at all.
    ws[..., -1] = 0
  observe(ws, M, Em, K, C, h.rng.random() < .5, h.rng.choice(['einsum', 'indices']), 'random')

# Each member of the ensemble is the ordinary model with its own experts.
CONFIGS = [  # M, Em, K, cf, layers, num layers, classifier, batch, group, bpr, name
    (2, 2, 1, 1., (1,), 2, 'token', 2, 20, False, 'einsum'),
    (3, 2, 2, .5, (0, 2), 3, 'gap', 2, 24, True, 'indices'),
    (1, 2, 1, 1., (0,), 1, 'gap', 2, 4, False, 'indices'),
    (2, 3, 2, .7, (1, 2), 3, 'map', 3, 8, True, 'einsum'),
]
for M, Em, K, cf, layers, nl, classifier, B, group, bpr, name in (
    CONFIGS if h.thorough else CONFIGS[:3] if h.seed % 2 else CONFIGS[1:]):
  def make(cls, experts, gs, **moe):
    return cls(
        num_classes=5, patch_size=(2, 2), hidden_size=8, deterministic=True,
        classifier=classifier, head_kernel_zero_init=False,
        encoder=dict(num_layers=nl, mlp_dim=8, num_heads=2, moe=dict(
            layers=layers, num_experts=experts, group_size=gs, split_rngs=True,
            router=dict(num_selected_experts=K, dispatcher=dict(
                name=name, capacity_factor=cf, batch_priority=bpr,
                capacity_multiple_of=None)), **moe)))
  ens = make(vit_moe_ensemble.VisionTransformerMoeEnsemble, M * Em, group,
             ensemble_size=M)
  alone = make(vit_moe.VisionTransformerMoe, Em, group // M)
  x = jnp.asarray(h.np.randn(B, 4, 4, 3), jnp.float32)
  shapes = flax.traverse_util.flatten_dict(
      jax.eval_shape(ens.init, jax.random.PRNGKey(0), x)['params'], sep='/')
  params = {k: jnp.asarray(h.np.randn(*v.shape) * .5, v.dtype) for k, v in shapes.items()}
  tree = lambda p: {'params': flax.traverse_util.unflatten_dict(p, sep='/')}
  got, met = jax.jit(ens.apply)(tree(params), x)
  run = jax.jit(alone.apply)
  for m in range(M):
    def mine(k, v):
      if '/Moe/Router/' in k:
        return v[:, m]
      return v[m * Em:(m + 1) * Em] if '/Moe/Mlp/' in k else v
    a, ma = run(tree({k: mine(k, v) for k, v in params.items()}), x)
    aux = np.asarray(met['auxiliary_loss'])
    h.emit(op='member', M=M, m=m + 1, B=B, ens=fixed(got, 10000), alone=fixed(a, 10000),
           aux=fixed(aux.reshape(aux.shape[0], -1)[:, m], 10000) if aux.ndim > 1 else [0],
           auxalone=fixed(ma['auxiliary_loss'], 10000), tol=8)

# Members draw their own noise.
r = Router(num_experts=6, ensemble_size=3, num_selected_experts=2, noise_std=1.,
           dispatcher=dict(name='einsum', batch_priority=False, capacity=24))
x = jnp.repeat(jnp.asarray(h.np.randn(2, 8, 4), jnp.float32), 3, axis=1)
kernel = jnp.repeat(jnp.asarray(h.np.randn(4, 1, 2), jnp.float32), 3, axis=1)
disp, _ = r.apply({'params': {'dense': {'kernel': kernel}}}, x,
                  rngs={'gating': jax.random.PRNGKey(h.seed)})
tags = jnp.broadcast_to(jnp.eye(6)[:, None], (6, disp.dispatch(x).shape[1], 6))
g = np.asarray(disp.combine(tags)).reshape(2, 8, 3, 6)
g = np.stack([g[:, :, m, 2 * m] for m in range(3)])
diff = np.stack([g[0] != g[1], g[1] != g[2], g[0] != g[2]])
h.emit(op='noise', distinct=int(diff.sum()), total=int(diff.size))

def build(E, M, S, K):
  jax.eval_shape(Router(num_experts=E, ensemble_size=M, num_selected_experts=K,
                        deterministic=True, dispatcher=dict(
                            name='einsum', batch_priority=False, capacity=2)).init,
                 jax.random.PRNGKey(0), jnp.zeros((2, S, 3)))
build(4, 2, 4, 2)
for what, a in (('experts not multiple', (5, 2, 4, 1)), ('group not multiple', (4, 2, 3, 1)),
                ('no members', (4, 0, 4, 1)), ('K above block', (4, 2, 4, 3))):
  h.emit(op='reject', what=what, rejected=attempt(build, *a)[1] != '')
h.close()
