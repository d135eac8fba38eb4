"""Evaluations of real models on real data sets, while parameters change."""
import os

from common import H, fixed
import jax
import numpy as np

NPROC = int(os.environ['VERIF_NPROC'])
PROC = int(os.environ['VERIF_PROC'])
if NPROC > 1:
  jax.config.update('jax_cpu_collectives_implementation', 'gloo')
  jax.distributed.initialize('127.0.0.1:' + os.environ['VERIF_PORT'], NPROC,
                             PROC)
from clu.data import dataset_iterator  # pylint: disable=g-import-not-at-top
import jax.numpy as jnp
import tensorflow as tf
from vmoe.evaluate import evaluator

h = H()
C = 3
F = 2
seen = []   # values drawn from the random keys


class Writer:
  def __init__(self):
    self.got = []

  def write_scalars(self, step, scalars):
    self.got.append((step, dict(scalars)))

  def __getattr__(self, name):
    return lambda *a, **k: None


def logits_of(w, x):
  # Distinct scores: the class breaks ties.
  return (x @ w) * 4 + np.arange(C)


def apply_fn(variables, images, rngs=None):
  w = variables['params']['w']
  out = (images.reshape(images.shape[0], -1).astype(jnp.float32) @ w) * 4 + jnp.arange(C)
  return out, {'ignored': jnp.sum(images)}


def loss_vec(logits, labels):
  return jnp.sum(jnp.abs(logits - labels), axis=-1)


def loss_mat(logits, labels):
  return jnp.abs(logits - labels)


def mesh_of(d):
  devs = jax.devices()[:d]
  shape = (d,) if d < 4 or h.rng.random() < .5 else (2, d // 2)
  return jax.sharding.Mesh(np.array(devs).reshape(shape), tuple('ab'[:len(shape)]))


class DS:
  """A data set: batches as every process sees them."""

  def __init__(self, b, k, mask, d):
    # Global batch of b * d rows, d of them for every row of the layout.
    n = b * d * k
    self.b = b * d
    self.x = h.np.randint(-3, 4, size=(n, F, 1))
    kind = h.rng.choice(['one', 'multi'])
    if kind == 'one':
      self.y = np.eye(C)[h.np.randint(C, size=n)]
    else:
      self.y = h.np.randint(0, 2, size=(n, C))
    cells = np.zeros(b * k, bool)
    cells[np.array(mask) - 1] = True
    self.valid = np.repeat(cells, d)
    if d > 1:
      self.valid &= h.np.rand(n) < .8
      self.valid[h.rng.choice(np.flatnonzero(np.repeat(cells, d)).tolist())] = True
    # Padding has arbitrary content.
    self.x[~self.valid] *= h.rng.choice([0, 1, 50])
    self.ldt = h.rng.choice(['float32', 'int32'])
    self.vdt = h.rng.choice(['bool', 'float32', 'int32'])
    # Rows of a global batch which belong to this process.
    rows = np.arange(n).reshape(k, NPROC, self.b // NPROC)[:, PROC].reshape(-1)
    data = tf.data.Dataset.from_tensor_slices({
        'image': self.x[rows].astype('float32'), 'labels': self.y[rows].astype(self.ldt),
        '__valid__': self.valid[rows].astype(self.vdt)})
    self.it = dataset_iterator.TfDatasetIterator(
        data.batch(self.b // NPROC, drop_remainder=True), checkpoint=False)

  def examples(self, w):
    out = []
    for x, y, v in zip(self.x, self.y, self.valid):
      s = logits_of(w, x.reshape(-1))
      out.append([int(v), int(np.abs(s - y).sum()), int(y[np.argmax(s)])])
    return out


def history(layouts, when, d, steps):
  mesh = mesh_of(d)
  sets = {f'set{i}': DS(l['b'], l['k'], l['mask'], d) for i, l in enumerate(layouts)}
  writer = Writer()
  with mesh:
    action = evaluator.EvaluateMultipleDatasets(
        apply_fn=apply_fn, loss_fn=h.rng.choice([loss_vec, loss_mat]),
        label_pred_fn=lambda x: jnp.argmax(x, -1),
        datasets={k: v.it for k, v in sets.items()}, metric_writer=writer,
        rng_keys=h.rng.choice([(), ('dropout',)]), seed=h.rng.choice([0, 5]),
        every_steps=when['every'] or None, on_steps=when['on'])
    first = h.rng.choice([1, 1, 4])
    w = h.np.randint(-2, 3, size=(F, C))
    for step in range(first, first + steps):
      # Training changes the parameters.
      w = np.clip(w + h.np.randint(-1, 2, size=w.shape), -3, 3)
      sharding = jax.sharding.NamedSharding(mesh, jax.sharding.PartitionSpec())
      params = {'w': jax.make_array_from_callback(
          w.shape, sharding, lambda i: w.astype('float32')[i])}
      writer.got.clear()
      extra = h.rng.choice([{}, {'more': 7.0}, {'more': None}])
      ran = action(step, params=params, **extra)
      final = [g for g in writer.got if any(k.endswith('/loss') for k in g[1])]
      rec = []
      if ran and len(final) == 1:
        m = final[0][1]
        for name, s in sets.items():
          n = int(s.valid.sum())
          if f'{name}/loss' in m and f'{name}/prec@1' in m:
            rec.append(dict(examples=s.examples(w),
                            loss=fixed(np.float64(m[f'{name}/loss']) * n, 100),
                            prec=fixed(np.float64(m[f'{name}/prec@1']) * n, 100)))
      h.emit(op='call', step=step, every=when['every'], on=when['on'], ran=bool(ran),
             nsets=len(sets), wstep=final[0][0] if final else -1, sets=rec,
             extra=bool(final and (('more' in final[0][1]) == (extra.get('more') is not None))),
             untouched=bool(not params['w'].is_deleted() and np.array_equal(
                 np.asarray(params['w'].addressable_data(0)), w)))


def random_keys(k, times, names, seed):
  """The model draws a number from every key, the loss is that number."""
  n = k * jax.device_count()
  data = tf.data.Dataset.from_tensor_slices({
      'image': np.ones((n // NPROC, 1), 'float32'), 'labels': np.ones((n // NPROC, C), 'float32'),
      '__valid__': np.ones(n // NPROC, bool)}).batch(jax.local_device_count(), drop_remainder=True)
  draws = []

  def draw(variables, images, rngs):
    vals = [jax.random.randint(rngs[x], (), 0, 2**20) for x in names]
    return jnp.full((images.shape[0], C), sum(vals), jnp.float32), {}

  totals = []
  with mesh_of(jax.device_count()):
    def per_size(size):
      it = dataset_iterator.TfDatasetIterator(data.take(size), checkpoint=False)
      w = Writer()
      a = evaluator.EvaluateMultipleDatasets(
          apply_fn=draw, loss_fn=lambda o, l: o[:, 0], label_pred_fn=lambda o: jnp.argmax(o, -1),
          datasets={'s': it}, metric_writer=w, rng_keys=names, seed=seed, every_steps=1)
      out = []
      for step in range(1, times + 1):
        w.got.clear()
        a(step, params={'p': jnp.ones(())})
        out.append(float(w.got[-1][1]['s/loss']) * size)
      return out
    totals = [per_size(s) for s in range(1, k + 1)]
  for t in range(times):
    tot = [0.0] + [totals[s][t] for s in range(k)]
    draws.append([int(round(tot[i + 1] - tot[i])) for i in range(k)])
  h.emit(op='rng', batches=k, draws=draws)


cases = list(h.cases)
h.rng.shuffle(cases)
timed = [c for c in cases if c['layout']['b'] == 2 and c['layout']['mask'] == [1, 3]]
plain = [c for c in cases if c not in timed]
if NPROC == 1:
  for c in timed:   # of this shard
    history([c['layout'], h.rng.choice(plain)['layout']], c['when'], 1, 6)
  for c in plain[:h.share(700 if h.thorough else 60)]:
    more = [x['layout'] for x in h.rng.sample(plain, h.rng.randint(0, 1))]
    history([c['layout']] + more, {'every': 1, 'on': []}, h.rng.choice([1, 1, 2, 4]), 2)
else:
  for c in plain[:100 if h.thorough else 12]:
    history([c['layout']], {'every': 1, 'on': []}, jax.device_count(), 2)
if NPROC == 1 and h.shard == 0:
  for names in (('a',), ('a', 'b')):
    random_keys(4, 3, names, h.rng.choice([0, 3]))
h.close()
