"""Mixed batches: one-hot images and labels tell the weights."""
import zlib

import flax
from common import H, attempt, fixed
import jax
import jax.numpy as jnp
import numpy as np
import optax
from vmoe.train import train_state
from vmoe.train import trainer

h = H()
DEV = jax.device_count()
mesh = jax.sharding.Mesh(np.array(jax.devices()).reshape(DEV, 1), ('expert', 'replica'))
P = jax.sharding.PartitionSpec
tx = optax.sgd(1.)


def inner(state, images, labels, *args, **kwargs):
  """Reports what it is given; uses up its own key."""
  rngs = {k: jax.random.split(v)[0] for k, v in state.rngs.items()}
  if isinstance(state.rngs, flax.core.FrozenDict):
    rngs = flax.core.freeze(rngs)
  return (state.replace(step=state.step + 1, rngs=rngs),
          {'images': images, 'labels': labels, 'names': len(state.rngs), 'extra': len(args) * 10 + len(kwargs),
           'key': state.rngs['dropout']})


def data(n):
  """Images whose every pixel is a different scale of the one-hot; labels one-hot."""
  eye = np.eye(n, dtype='float32')
  return eye[:, :, None] * np.asarray([1., 2.], 'float32'), eye


def history(c):
  n = DEV * c['per']
  images, labels = data(n)
  rngs = {'dropout': jax.random.PRNGKey(h.rng.randrange(10**6)), 'mixup': jax.random.PRNGKey(h.rng.randrange(10**6))}
  if h.rng.random() < .5:
    rngs = dict(reversed(list(rngs.items())))
  state = train_state.TrainState.create(
      apply_fn=None, params={'w': jnp.ones(2)}, tx=tx, rngs=flax.core.freeze(rngs) if c['frozen'] else rngs)
  kw = {}
  if c['gran'] != 'device' or h.rng.random() < .5:
    kw['granularity'] = c['gran']
  if c['size'] != 2 or h.rng.random() < .5:
    kw['size'] = c['size']
  if c['gran'] != 'batch' and h.rng.random() < .5:
    kw['partition_spec'] = P(('expert', 'replica')) if DEV > 1 or c['gran'] == 'example' else P()
  fn = trainer.wrap_train_step_with_mixup(inner, concentration=c['conc'] / 2, **kw)
  call = jax.jit(fn) if c['jit'] else fn
  last = None
  for _ in range(c['steps']):
    was = {k: np.asarray(v).tobytes() for k, v in state.rngs.items()}
    with mesh:
      (new, m), (_, again) = call(state, images, labels, 5), call(state, images, labels, 5)
    now = {k: np.asarray(v).tobytes() for k, v in state.rngs.items()}
    after = {k: np.asarray(v).tobytes() for k, v in new.rngs.items()}
    got = np.asarray(m['images'])
    h.emit(op='step', dims=[DEV, c['per']], axis=2,
           wdims={'batch': [1, 1], 'device': [DEV, 1], 'example': [DEV, c['per']]}[c['gran']], size=c['size'],
           images=fixed(got[..., 0]), labels=fixed(m['labels']),
           fresh=last is None or not np.allclose(last, got),
           repeat=bool((np.asarray(again['images']) == got).all() and np.allclose(got[..., 1], 2 * got[..., 0])),
           untouched=was == now, keys=after.keys() == was.keys() and all(after[k] != was[k] for k in was)
           and type(new.rngs) is type(state.rngs),
           inner=int(m['names']) == 1 and int(m['extra']) == 10 and int(new.step) == int(state.step) + 1
           and np.asarray(m['key']).tobytes() == was['dropout'])
    state, last = new, got


def direct():
  dims = [h.rng.randint(1, 3) for _ in range(h.rng.randint(1, 3))]
  wdims = [h.rng.choice([1, d]) for d in dims]
  size = h.rng.randint(1, 4)
  axis = h.rng.randrange(len(dims))
  n = int(np.prod(dims))
  images, labels = data(n)
  tree = {'i': images.reshape(dims + [n, 2]), 'l': [labels.reshape(dims + [n])]}
  out = trainer.mixup(jax.random.PRNGKey(h.rng.randrange(10**6)), tree, concentration=h.rng.choice([.5, 1., 3.]),
                      shape=tuple(wdims) + (size,), roll_axis=axis)
  h.emit(op='mix', dims=dims, wdims=wdims, axis=axis + 1, size=size,
         images=fixed(np.asarray(out['i'])[..., 0].reshape(n, n)), labels=fixed(np.asarray(out['l'][0]).reshape(n, n)))


def rejects():
  key = jax.random.PRNGKey(0)
  a = np.ones((4, 2, 3), 'float32')
  for tree, conc, shape, axis, bad in [
      (a, 1., (4, 2), 0, False), (a, 0., (4, 2), 0, True), (a, -1., (4, 2), 0, True),
      (a, 1., (4,), 0, True), (a, 1., (4, 2), 1, True), (a, 1., (4, 2), -1, True), (a, 1., (3, 2), 0, True),
      (a, 1., (4, 2, 2), 1, False), (a, 1., (4, 3, 2), 1, True), ((a, a[:2]), 1., (1, 2), 0, True),
      ((a, a[:, :1]), 1., (4, 1, 2), 1, True), ((a, a[:, :1]), 1., (4, 2), 0, False), (a, 1., (1, 2, 2), 0, False)]:
    _, err = attempt(trainer.mixup, key, tree, concentration=conc, shape=shape, roll_axis=axis)
    h.emit(op='reject', rejected=bool(err), bad=bad)
  images, labels = data(DEV)
  for rngs, kw, bad in [({'dropout': key, 'mixup': key}, {}, False), ({'dropout': key}, {}, True),
                        ({'dropout': key, 'mixup': key}, {'granularity': 'nope'}, True),
                        ({'dropout': key, 'mixup': key}, {'concentration': -1.}, True)]:
    state = train_state.TrainState.create(apply_fn=None, params={'w': jnp.ones(2)}, tx=tx, rngs=rngs)
    fn = trainer.wrap_train_step_with_mixup(inner, **{'concentration': 1., **kw})
    with mesh:
      _, err = attempt(fn, state, images, labels)
    h.emit(op='reject', rejected=bool(err), bad=bad)
  for conc in (None, 0., 0):
    state = train_state.TrainState.create(apply_fn=None, params={'w': jnp.ones(2)}, tx=tx, rngs={'dropout': key})
    _, m = trainer.wrap_train_step_with_mixup(inner, concentration=conc)(state, images, labels)
    h.emit(op='off', same=bool((np.asarray(m['images']) == images).all() and (np.asarray(m['labels']) == labels).all()))


cases = list(h.cases)
h.rng.shuffle(cases)
cases.sort(key=lambda c: not c['jit'])       # Not compiled is slow: few of those.
n = h.share(300 if h.thorough else 40)
for c in cases[:n - 1] + cases[-1:]:
  history(c)
for _ in range(h.share(600 if h.thorough else 24)):
  direct()
if h.shard == 0:
  rejects()
h.close()
