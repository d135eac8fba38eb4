"""Gates, noise and auxiliary losses of the routers."""
import collections

from common import H, attempt, fixed
import jax
import jax.numpy as jnp
import numpy as np
from vmoe.nn import routing

h = H()


def make(cls, e, s, k=None, **kw):
  """A router whose logits are its inputs."""
  # No item is ever left out, so that combining shows all gates.
  disp = kw.pop('dispatcher', None) or {'name': 'einsum', 'capacity_factor': float(e)}
  if cls is TOP:
    disp = dict(disp, batch_priority=False)
  if k is not None:
    kw['num_selected_experts'] = k
  r = cls(num_experts=e, dispatcher=disp, **kw)
  v = jax.eval_shape(
      r.init, {'params': jax.random.PRNGKey(0), 'gating': jax.random.PRNGKey(1)},
      jnp.zeros((1, s, e)))
  v = {'params': jax.tree_util.tree_map(lambda a: jnp.eye(e, dtype=a.dtype),
                                        v['params'])}
  return r, v


jitted = {}


def observe(r, v, x, e, key):
  """Gates, observed through the dispatcher, and metrics."""
  def go(key):
    rngs = {} if key is None else {'gating': key}
    dispatcher, m = r.apply(v, x, rngs=rngs)
    d = dispatcher.dispatch(x)
    tags = jnp.broadcast_to(jnp.eye(e)[:, None, :], (e, d.shape[1], e))
    return dispatcher.combine(tags), m
  if id(r) not in jitted:
    jitted[id(r)] = (r, jax.jit(go))  # Keeps r, and so its id, alive.
  g, m = jitted[id(r)][1](key)
  return np.asarray(g), jax.tree_util.tree_map(np.asarray, m)


TOP, ITEMS = routing.NoisyTopExpertsPerItemRouter, routing.NoisyTopItemsPerExpertRouter
groups = collections.defaultdict(list)
for c in h.cases:
  groups[c['E'], len(c['w'])].append(c['w'])
for (e, s), ws in groups.items():
  h.rng.shuffle(ws)
  ws = ws[:150 if not h.thorough else 600]
  x = jnp.log(jnp.asarray(ws, jnp.float32))
  for std, det in ((1.0, False), (1.0, True), (0.0, False), (.05, False)):
    wt = [h.rng.choice([0, 0, 1, 2, 3]) for _ in range(3)]
    r, v = make(TOP, e, s, k=e, noise_std=std, deterministic=det,
                gshard_loss_weight=wt[0] / 2, importance_loss_weight=wt[1] / 2,
                load_loss_weight=wt[2] / 2)
    noisy = std > 0 and not det
    g, m = observe(r, v, x, e, jax.random.PRNGKey(h.seed))
    for i, w in enumerate(ws):
      pick = lambda n: fixed(np.broadcast_to(m[n], (len(ws),))[i], 10000)
      parts = [pick('gshard_loss'), pick('importance_loss')]
      if noisy:
        parts.append(pick('load_loss'))
      h.emit(op='losses', w=w, std=int(std * 100), noisy=noisy,
             gates=fixed(g[i], 1000), importance=parts[1], gshard=parts[0],
             parts=parts, weights=wt[:len(parts)], aux=pick('auxiliary_loss'))

# Load: with little noise every expert above the last selected one is sure to
# win, every one below to lose, and the last one wins half of the time.
for e, k in ((2, 1), (4, 1), (4, 2), (4, 3), (3, 2)):
  for trial in range(2 if not h.thorough else 8):
    s = 4096
    bag = np.array([1, 8, 64, 512][:e], np.float64)
    ps = h.np.dirichlet(np.ones(e) * 1.2)
    order = np.stack([h.np.choice(e, e, replace=False, p=ps * .9 + .1 / e)
                      for _ in range(s)])
    w = np.zeros((s, e))
    for pos in range(e):
      w[np.arange(s), order[:, pos]] = bag[e - 1 - pos]
    std = float(h.rng.choice([.02, .1, .3]))
    r, v = make(TOP, e, s, k=k, noise_std=std, gshard_loss_weight=0.,
                importance_loss_weight=0., load_loss_weight=1.,
                dispatcher={'name': 'indices', 'capacity_factor': .1})
    x = jnp.log(jnp.asarray(w, jnp.float32))[None]
    m = jax.jit(lambda key: r.apply(v, x, rngs={'gating': key})[1])(
        jax.random.PRNGKey(h.seed + trial))
    upper = [int((order[:, :k - 1] == j).sum()) for j in range(e)]
    last = [int((order[:, k - 1] == j).sum()) for j in range(e)]
    h.emit(op='load', E=e, K=k, upper=upper, last=last, std=std,
           load=fixed(m['load_loss'][0], 10000))
    h.emit(op='load', E=e, K=k, upper=upper, last=last, std=std,
           load=fixed(m['auxiliary_loss'][0], 10000))

# The same logits for every item, in units of the noise of the router.
for l, k in (([0, 10], 1), ([0, 20], 1), ([0, 10, 20], 1), ([0, 10, 20], 2),
             ([0, 5, 10, 30], 2)):
  for std in (1., .1):
    e, s = len(l), 16384
    r, v = make(TOP, e, s, k=k, noise_std=std, gshard_loss_weight=0.,
                importance_loss_weight=0., load_loss_weight=1.,
                dispatcher={'name': 'indices', 'capacity_factor': .1})
    x = jnp.broadcast_to(jnp.asarray(l) / 10 * std / e, (2, s, e))
    m = jax.jit(lambda key: r.apply(v, x, rngs={'gating': key})[1])(
        jax.random.PRNGKey(h.seed))
    for i in range(2):
      h.emit(op='win', l=l, K=k, std=std, load=fixed(m['load_loss'][i], 10000))

# Noise.
for cls in (TOP, ITEMS):
  for e in (2, 4, 8) if h.thorough else (2, 4):
    for std in (5, 10, 20) if h.thorough or e == 2 else (10,):
      gn, s = 10, 48
      kw = dict(k=e) if cls is TOP else {}
      r, v = make(cls, e, s, noise_std=std / 10, **kw)
      x = jnp.asarray(h.np.randn(gn, s, e).astype(np.float32)) * .5
      run = lambda key: observe(r, v, x, e, jax.random.PRNGKey(key))[0]
      noisy, again, other = run(h.seed), run(h.seed), run(h.seed + 1)
      clean = np.asarray(jax.nn.softmax(x))
      a = h.rng.randrange(e)
      b = (a + 1 + h.rng.randrange(e - 1)) % e
      d = (np.log(noisy[..., a]) - np.log(noisy[..., b]) -
           np.log(clean[..., a]) + np.log(clean[..., b])).ravel()
      sig = 141 * std / 10 / e
      if cls is TOP and e > 2:
        # The scale does not depend on the number of selected experts.
        r1, _ = make(cls, e, s, noise_std=std / 10, k=1)
        top = observe(r1, v, x, e, jax.random.PRNGKey(h.seed))[0].max(-1)
        h.emit(op='same', what='noise depends on K',
               same=bool(np.allclose(top, noisy.max(-1), atol=1e-5)))
      h.emit(op='noise', E=e, std=std, d=fixed(d, 100),
             mindistinct=int(min(len(d), 6 * sig)), samekey=bool((noisy == again).all()),
             freshkey=bool((noisy != other).mean() > .9))
      rd, _ = make(cls, e, s, noise_std=std / 10, deterministic=True, **kw)
      rz, _ = make(cls, e, s, noise_std=0., **kw)
      def det(rr):
        return fixed(observe(rr, v, x, e, None)[0], 100000)
      got, err = attempt(lambda: (det(rd), det(rd), det(rz)))
      got = got or (0, 1, 2)
      h.emit(op='det', error=err, gates=got[0], again=got[1], zerostd=got[2])
      if cls is ITEMS:
        h.emit(op='zero', aux=fixed(observe(
            r, v, x, e, jax.random.PRNGKey(0))[1]['auxiliary_loss']))
for what, fn in (
    ('K=0', lambda: make(TOP, 3, 4, k=0)), ('K>E', lambda: make(TOP, 3, 4, k=4)),
    ('rank2', lambda: make(TOP, 3, 4, k=1)[0].init(jax.random.PRNGKey(0), jnp.zeros((4, 3)))),
    ('rank2 items', lambda: make(ITEMS, 3, 4)[0].init(jax.random.PRNGKey(0), jnp.zeros((4, 3))))):
  _, err = attempt(fn)
  h.emit(op='reject', what=what, rejected=err == 'ValueError')
h.close()
