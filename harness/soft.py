"""Soft routing: weights observed by dispatching and combining one-hot data."""
from common import H, attempt, fixed
import jax
import jax.numpy as jnp
import numpy as np
from vmoe.projects.soft_moe import router

h = H()
# Integer vectors with integer norms.
BASE = [((1, 0, 0, 0), 1), ((0, 1, 0, 0), 1), ((3, 4, 0, 0), 5), ((4, 0, 0, 3), 5),
        ((5, 12, 0, 0), 13), ((1, 1, 1, 1), 2), ((1, 2, 2, 0), 3), ((2, 3, 6, 0), 7),
        ((0, 8, 15, 0), 17), ((2, 4, 5, 6), 9), ((1, 1, 3, 5), 6)]


def vectors(n):
  out = []
  for _ in range(n):
    v, norm = h.rng.choice(BASE)
    v = list(v)
    h.rng.shuffle(v)
    k = h.rng.choice([1, 1, 2, 5])
    out.append(dict(v=[k * h.rng.choice([-1, 1]) * a for a in v], n=k * norm))
  return out


def logs(w):
  return fixed(np.log(np.maximum(np.asarray(w, np.float64), 1e-30)), 1000)


def observe(r, variables, x, e, rngs=None):
  g, t, _ = x.shape
  def go(v, x):
    d, m = r.apply(v, x, rngs=rngs)
    got = d.dispatch(jnp.eye(g * t, dtype=x.dtype).reshape(g, t, g * t))
    n = got.shape[1]
    c = d.combine(jnp.eye(e * n, dtype=x.dtype).reshape(e, n, e * n))
    return got, c, m
  got, c, m = jax.jit(go)(variables, x)
  p = got.shape[1] // g
  got = np.asarray(got, np.float64).reshape(e, g * p, g, t)
  c = np.asarray(c, np.float64).reshape(g, t, e, g * p)
  # Positions of the buffers which serve each group, in order.
  owner = np.abs(got).sum(-1).argmax(-1)                    # (E, G * P)
  got2, c2 = np.zeros((e, g, p, g, t)), np.zeros((g, t, e, g, p))
  for i in range(e):
    for j in range(g):
      at = np.flatnonzero(owner[i] == j)
      if len(at) == p:
        got2[i, j], c2[:, :, i, j, :] = got[i, at], c[:, :, i, at]
  got, c = got2, c2
  return got, c, m, p


for case in h.cases:
  T, P, E, G = case['T'], case['P'], case['E'], case['G']
  if not h.thorough and h.rng.random() > .25:
    continue
  kw = dict(num_slots=P) if P else dict(capacity_factor=case['cf'] / 4)
  det = h.rng.random() < .5
  kw.update(noise_std=1. if det else 0., deterministic=det)
  r = router.SoftRouter(num_experts=E, **kw)
  xs = [vectors(T) for _ in range(G)]
  x = jnp.asarray([[a['v'] for a in g] for g in xs], jnp.float32)
  shapes, err = attempt(jax.eval_shape, r.init, jax.random.PRNGKey(0), x)
  if err:
    continue
  p0 = shapes['params']['mu'].shape[2]
  mus = vectors(E * p0)
  mu = np.asarray([a['v'] for a in mus], np.float32).T.reshape(4, E, p0)
  v = {'params': {'mu': jnp.asarray(mu), 'scale': jnp.float32(case['scale'])}}
  got, c, m, p = observe(r, v, x, E)
  allc, alld = [], []
  for g in range(G):
    d = got[:, g, :, g, :].reshape(E * p, T).T        # (T, slots)
    cc = c[g, :, :, g, :].reshape(T, E * p)
    foreign = sum(np.abs(got[:, g, :, o, :]).sum() + np.abs(c[g, :, :, o, :]).sum()
                  for o in range(G) if o != g)
    h.emit(op='soft', T=T, P=P, E=E, cf=case['cf'], slots=int(p), scale=case['scale'],
           x=xs[g], mu=mus, d=fixed(d, 1000), c=fixed(cc, 1000), ld=logs(d), lc=logs(cc),
           foreign=int(foreign > 0), tol=20)
    allc += fixed(cc, 1000)
    alld += fixed(d.T, 1000)
  f = lambda n: fixed(m.get(n, 0.), 1000)
  h.emit(op='stats', c=allc, dT=alld, cmin=f('combine_weights_min_mean'),
         cmax=f('combine_weights_max_mean'), dmin=f('dispatch_weights_min_mean'),
         dmax=f('dispatch_weights_max_mean'), aux=f('auxiliary_loss'), mu=mus,
         smin=f('mu_similarity_min'), smax=f('mu_similarity_max'),
         smean=f('mu_similarity_mean'))

for std in (20, 60):
  G, T, E, P = 16, 12, 2, 6
  x = jnp.asarray(h.np.randn(G, T, 8), jnp.float32)
  v = {'params': {'mu': jnp.asarray(h.np.randn(8, E, P), jnp.float32),
                  'scale': jnp.float32(1.)}}
  r = router.SoftRouter(num_experts=E, num_slots=P, noise_std=std / 100)
  rd = router.SoftRouter(num_experts=E, num_slots=P, noise_std=std / 100, deterministic=True)
  r0 = router.SoftRouter(num_experts=E, num_slots=P)
  key = {'gating': jax.random.PRNGKey(h.seed)}
  got, c, _, _ = observe(r, v, x, E, key)
  again, _, _, _ = observe(r, v, x, E, key)
  other, _, _, _ = observe(r, v, x, E, {'gating': jax.random.PRNGKey(h.seed + 1)})
  clean, _, _, _ = observe(r0, v, x, E)
  det, _, _, _ = observe(rd, v, x, E)
  h.emit(op='same', what='DeterministicHasNoise', same=bool((det == clean).all()))
  h.emit(op='same', what='NoiseFollowsKey', same=bool(
      (got == again).all() and (got != other).sum() > .5 * (got != 0).sum()))
  sq, seen = [], []
  for g in range(G):
    d = got[:, g, :, g, :].reshape(E * P, T).T
    d0 = clean[:, g, :, g, :].reshape(E * P, T).T
    cc = c[g, :, :, g, :].reshape(T, E * P)
    if g < 4:
      h.emit(op='noise', ld=logs(d), lc=logs(cc), n=T * E * P)
    n = np.log(d) - np.log(d0)
    # Double differences over disjoint pairs of rows and columns.
    dd = n[::2, ::2] - n[1::2, ::2] - n[::2, 1::2] + n[1::2, 1::2]
    seen.append(dd)
    sq += (dd ** 2).ravel().tolist()
  h.emit(op='same', what='NoiseSharedAcrossGroups', same=all(
      np.abs(a - b).max() > std / 1000 for a in seen for b in seen if a is not b))
  h.emit(op='scale', std=std, got=int(np.mean(sq) * 10000), n=len(sq))
h.close()
