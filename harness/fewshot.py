"""Few-shot evaluations whose least squares have a closed form."""
import os
from unittest import mock

from common import H
import jax
import numpy as np

NPROC = int(os.environ['VERIF_NPROC'])
PROC = int(os.environ['VERIF_PROC'])
if NPROC > 1:
  jax.config.update('jax_cpu_collectives_implementation', 'gloo')
  jax.distributed.initialize('127.0.0.1:' + os.environ['VERIF_PORT'], NPROC,
                             PROC)
from clu.data import dataset_iterator  # pylint: disable=g-import-not-at-top
import jax.numpy as jnp
import tensorflow as tf
from vmoe.data import input_pipeline
from vmoe.evaluate import fewshot

h = H()
mesh = jax.sharding.Mesh(np.array(jax.devices()), ('d',))
D = jax.device_count()
store = {}
applies = {}


class Writer:
  def __init__(self):
    self.got = []

  def write_scalars(self, step, scalars):
    self.got.append((step, {k: v for k, v in scalars.items() if 'duration' not in k}))

  def __getattr__(self, name):
    return lambda *a, **k: None


def stream(examples, rows):
  """Batches of the examples in a random order, with padding anywhere."""
  n = len(examples) + h.rng.randint(0, 3)
  n += -n % (rows * D)
  slots = h.rng.sample(range(n), len(examples))
  x = h.np.randint(-9, 10, size=n).astype('float32') * h.rng.choice([0, 1, 30])
  y = h.np.randint(0, 3, size=n)
  v = np.zeros(n, bool)
  for s, (a, b) in zip(slots, examples):
    x[s], y[s], v[s] = a, b, True
  mine = np.arange(n).reshape(-1, NPROC, rows * D // NPROC)[:, PROC].reshape(-1)
  kept = [[int(x[s]), int(y[s])] for s in sorted(slots)]
  ds = tf.data.Dataset.from_tensor_slices(
      {'image': x[mine][:, None], 'label': y[mine].astype('int32'), '__valid__': v[mine]})
  return ds.batch(rows * D // NPROC, drop_remainder=True), kept


def get_dataset(*, variant, name, split, **kw):
  assert kw == {'process': 'p'}, kw
  return dataset_iterator.TfDatasetIterator(store[name, split], checkpoint=False)


class Info:
  def __init__(self, c):
    self.features = {'label': mock.Mock(num_classes=c)}


def builder(name, **kw):
  b = mock.Mock()
  b.info = Info(store[name, 'classes'])
  return b


def apply_of(k):
  if k not in applies:
    a = jnp.asarray([1., -2., .5, 3., -1.][:k])
    c = jnp.asarray([0., 3., -1., 10., 2.][:k])
    applies[k] = lambda variables, images, rngs: (
        images * variables['params']['one'] * a + c, {'unused': 0})
  return applies[k]


params = {'params': {'one': jnp.ones(())}}


def action(names, c, **kw):
  w = Writer()
  with mock.patch.object(input_pipeline, 'get_dataset', get_dataset), \
       mock.patch.object(fewshot.tfds, 'builder', builder):
    a = fewshot.FewShotPeriodicAction(
        shots=c['shots'], l2_regs=[float(l) for l in c['l2']], metric_writer=w,
        datasets=names, apply_fn=apply_of(c['k']), prefetch_to_device=h.rng.choice([None, 0, 2]),
        every_steps=1, process='p', **kw)
  return a, w


def examples(counts, classes):
  if h.rng.random() < .5:
    # One value per class: only how many of each class are fitted matters.
    v = h.rng.sample(range(-4, 5), classes)
    return [(v[c], c) for c in range(classes) for _ in range(counts[c])]
  out = [(h.rng.randint(-4, 4), c) for c in range(classes) for _ in range(counts[c])]
  # Values related to the classes, mostly.
  return [(x if h.rng.random() < .4 else max(-4, min(4, x // 2 + 3 * c - 2)), c) for x, c in out]


def make(c, i, rows):
  classes = len(c['counts'])
  counts = list(c['counts'])
  if i:
    h.rng.shuffle(counts)
    counts[0] += 2 if sum(counts) < 2 else 0
  tr, kept = stream(examples(counts, classes), rows)
  # Any labels: their accuracy tells predictions apart.
  te, tested = stream([(h.rng.randint(-12, 12), h.rng.randrange(classes))
                       for _ in range(h.rng.randint(9, 16))], rows)
  store[f'd{i}', 'train'], store[f'd{i}', 'test'] = tr, te
  store[f'd{i}', 'classes'] = classes
  same = h.rng.random() < .12
  return (f'd{i}', 'train', 'train' if same else 'test'), kept, kept if same else tested


def evaluate(c):
  rows = h.rng.choice([1, 2, 4])
  store.clear()
  nsets = 1 if c['mode'] == 'subset' else h.rng.choice([1, 2, 2, 3])
  made = {f's{i}': make(c, i, rows) for i in range(nsets)}
  a, w = action({k: v[0] for k, v in made.items()}, c, rng_keys=h.rng.choice([(), ('r',)]),
                seed=h.rng.randint(0, 5))
  for step in range(1, h.rng.choice([2, 3])):
    with mesh:
      a(step, variables=params)
    m = a.last_metrics
    best = []
    for s in c['shots']:
      l = float(m[f'fewshot/{s}shot_best_l2'])
      best.append(c['l2'].index(int(l)) + 1 if l in c['l2'] else 0)
    h.emit(op=c['mode'], classes=len(c['counts']), k=c['k'], shots=c['shots'], l2=c['l2'], best=best,
           sets=[dict(train=v[1], test=v[2],
                      acc=[round(float(m[f'fewshot/{k}/{s}shot']) * len(v[2])) for s in c['shots']])
                 for k, v in made.items()])


def reports(c):
  """Repeated evaluations, several seeds, and the main task."""
  rows = 2
  store.clear()
  made = {f's{i}': make(c, i, rows) for i in range(2)}
  seeds = h.rng.choice([1, 2, 3])
  fold = h.rng.random() < .5
  main = ('s1', c['shots'][0])
  kw = dict(rng_keys=(), seed=h.rng.randint(0, 5), seeds_per_step=seeds, seed_fold_in_step=fold,
            main_task=main, main_task_prefix=h.rng.choice(['0', 'top']))
  names = {k: v[0] for k, v in made.items()}
  runs = []
  with mesh:
    a, w = action(names, c, **kw)
    for step in (1, 2, 3):
      a(step, variables=params, more=1.5, none=None)
    runs.append(w.got)
    a2, w2 = action(names, c, **kw)
    for step in (1, 2, 3):
      a2(step, variables=params, more=1.5, none=None)
    runs.append(w2.got)
  eq = lambda x, y: x.keys() == y.keys() and all(float(x[k]) == float(y[k]) for k in x)
  same = all(eq(x[1], y[1]) for x, y in zip(*runs))
  if not fold:
    same = same and all(eq(x[1], runs[0][0][1]) for x in runs[0])
  last = runs[0][-1][1]
  parts = [f'fewshot/s1/{main[1]}shot'] if seeds == 1 else [
      f'fewshot/s1-seed-{i}/{main[1]}shot' for i in range(seeds)]
  want = {f'fewshot/{n}{"" if seeds == 1 else "-seed-%d" % i}/{s}shot'
          for n in names for i in range(seeds) for s in c['shots']}
  want |= {f'fewshot/{s}shot_best_l2' for s in c['shots']}
  want |= {f"{kw['main_task_prefix']}/s1/{main[1]}shot", 'more'}
  fx = lambda v: int(round(float(v) * 1e6))
  h.emit(op='reports', same=bool(same), written=[g[0] for g in runs[0]] == [1, 2, 3],
         main=fx(last.get(f"{kw['main_task_prefix']}/s1/{main[1]}shot", -7)),
         parts=[fx(last.get(p, -9)) for p in parts], names=want == set(last))


cases = list(h.cases)
h.rng.shuffle(cases)
sub = [c for c in cases if c['mode'] == 'subset']
full = [c for c in cases if c['mode'] == 'full']
scale = .25 if NPROC > 1 else 1
for c in sub[:h.share(int((900 if h.thorough else 44) * scale))] + full[:h.share(int((900 if h.thorough else 36) * scale))]:
  evaluate(c)
for c in full[:h.share(int((60 if h.thorough else 4) * scale))] + sub[:h.share(int((60 if h.thorough else 4) * scale))]:
  reports(c)
h.close()
