"""What every process of an input pipeline delivers."""
import contextlib
import itertools
from unittest import mock

from common import H, attempt
import jax
import ml_collections
import numpy as np
import tensorflow as tf
import tinyds
from vmoe.data import input_pipeline

tf.config.set_visible_devices([], 'GPU')
h = H()
b = tinyds.prepare(h.work)
memo = {}


def members(split):
  if split not in memo:
    memo[split] = tinyds.members(b, split)
  return memo[split]


@contextlib.contextmanager
def process(p, count, devices):
  with mock.patch.object(jax, 'process_count', lambda *a: count), \
       mock.patch.object(jax, 'process_index', lambda *a: p), \
       mock.patch.object(jax, 'device_count', lambda *a: devices), \
       mock.patch.object(jax, 'local_device_count', lambda *a: devices // count):
    yield


FILTERS = {'none': None, 'none2': None, 'marked': None,
           'odd': lambda d: d['id'] % 2 == 1, 'few': lambda d: d['id'] < 6,
           'all': lambda d: d['id'] < 0}
PASS = {'none': lambda i: True, 'none2': lambda i: True, 'marked': lambda i: i % 3 != 0,
        'odd': lambda i: i % 2 == 1, 'few': lambda i: i < 6, 'all': lambda i: False}


def evaluate(c):
  n, count, size = c['n'], c['P'], c['B']
  lo = h.rng.choice([0, 3, 7])
  src = h.rng.choice(['train', 'test'])
  n = min(n, tinyds.Tiny.SIZES[src] - lo)
  split = f'{src}[{lo}:{lo + n}]'
  kw = dict(name='tiny', split=split, batch_size=size * count,
            process='decode|' + ('ignore_no_labels("labels", "__valid__")|keep("id", "__valid__")'
                                 if c['filter'] == 'marked' else
                                 h.rng.choice(['keep("id")', 'resize(2)|value_range(-1, 1)|keep("image", "id")'])))
  if FILTERS[c['filter']] is not None:
    kw['pre_filter_fn'] = FILTERS[c['filter']]
  if h.rng.random() < .4:
    kw['cache'] = h.rng.choice(['loaded', 'batched'])
  if h.rng.random() < .4:
    kw['prefetch'] = h.rng.choice([1, 3, 'autotune'])
  if h.rng.random() < .3:
    kw['num_parallel_calls'] = 1
  if h.rng.random() < .2:
    kw['ignore_errors'] = True
  if h.rng.random() < .2:
    kw['shuffle_seed'] = 3
  got = []
  variant = h.rng.choice(['test', 'validation', 'val'])
  how = h.rng.choice(['one', 'config'])
  for p in range(count):
    with process(p, count, count):
      if how == 'one' or 'pre_filter_fn' in kw:
        it = input_pipeline.get_dataset(variant=variant, **kw)
      else:
        it = input_pipeline.get_datasets(ml_collections.ConfigDict(
            {variant: dict(kw, prefetch_device=2)}))[variant]
      got.append([[[int(i), int(v)] for i, v in zip(
          np.asarray(e['id']), np.asarray(e['__valid__']))] for e in itertools.islice(it, 200)])
  with process(0, count, count):
    num = input_pipeline.get_data_num_examples(ml_collections.ConfigDict(
        {k: v for k, v in kw.items() if k not in ('pre_filter_fn', 'shuffle_seed')}))
  m = members(split)
  h.emit(op='eval', P=count, B=size, filter=c['filter'], members=m,
         wanted=[i for i in m if PASS[c['filter']](i)], got=got, count=int(num))


def train(n, count, size, buffer, epochs):
  split = f'train[:{n}]'
  got, nomask = [], True
  for p in range(count):
    with process(p, count, count):
      it = input_pipeline.get_dataset(
          variant='train', name='tiny', split=split, batch_size=size * count,
          process='decode|keep("id")', shuffle_buffer=buffer,
          cache=h.rng.choice([None, 'loaded']))
      steps = max(1, epochs * n // (count * size))
      ids = []
      for e in itertools.islice(it, steps):
        ids += np.asarray(e['id']).tolist()
        nomask &= set(e) == {'id'}
      got.append(ids)
  # The share of a process: all that it ever delivers (several epochs).
  h.emit(op='train', P=count, members=members(split), asked=steps * size,
         buffer=buffer, got=got, shares=[sorted(set(g)) for g in got],
         nomask=bool(nomask))


def reject(batch, count, devices):
  with process(0, count, devices):
    _, err = attempt(input_pipeline.get_dataset, variant='test', name='tiny',
                     split='train', batch_size=batch, process='decode|keep("id")')
  h.emit(op='reject', batch=batch, P=count, devices=devices, rejected=bool(err))


cases = list(h.cases)
h.rng.shuffle(cases)
for c in cases[:h.share(1500 if h.thorough else 90)]:
  evaluate(c)
for _ in range(h.share(60 if h.thorough else 10)):
  n = h.rng.randint(2, 16)
  buffer = h.rng.choice([1, 1, 4, 50])
  train(n, h.rng.randint(1, min(4, n)), h.rng.randint(1, 4), buffer,
        6 + (6 * buffer if buffer < 10 else 60))
for batch, count, devices in itertools.product([1, 4, 6, 8, 12], [1, 2, 3], [3, 4, 6]):
  if devices % count == 0 and h.shard == 0:
    reject(batch, count, devices)
h.close()
