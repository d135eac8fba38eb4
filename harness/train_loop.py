"""Histories of training processes that are killed and started again.

A kill is simulated by keeping what is on disk at that moment and abandoning
the process' memory; "torn" kills leave the next checkpoint half-written.
"""
import os
import re
import shutil
import time
from unittest import mock
import zlib

from common import H, attempt
from clu.data import dataset_iterator
import flax.linen as nn
import jax
import jax.numpy as jnp
import ml_collections
import numpy as np
import orbax.checkpoint
import tensorflow as tf
from vmoe.train import trainer

h = H()
ROWS = 4
EVAL_EVERY = 3
planted = set()
seen = []     # (number of the batch, fingerprint of the parameters) of every update


def crc(x):
  return zlib.crc32(np.ascontiguousarray(x).tobytes()) % 2**30


class Killed(Exception):
  pass


class Model(nn.Module):
  deterministic: bool = False

  @nn.compact
  def __call__(self, x):
    mark = jnp.mean(x[:, 0])
    dense = nn.Dense(3)
    y = dense(x[:, 1:])
    if not self.deterministic and not self.is_initializing():
      jax.debug.callback(lambda m, k: seen.append((int(round(float(m))), crc(k))), mark,
                         dense.variables['params']['kernel'])
    if not self.deterministic:
      y = y + jax.random.normal(self.make_rng('dropout'), y.shape)
    return y, {'auxiliary_loss': jnp.mean(y ** 2) * .1}


class Data(dataset_iterator.DatasetIterator):
  """Batches which differ in their marks only."""

  def __init__(self, kill=None, train=True):
    self.n, self.kill, self.train = 0, kill, train
    r = np.random.RandomState(3)
    self.x = r.normal(size=(ROWS, 3)).astype('float32')
    self.y = np.eye(3, dtype='float32')[r.randint(3, size=ROWS)]

  @property
  def element_spec(self):
    s = {'image': dataset_iterator.ArraySpec(np.dtype('float32'), (ROWS, 3)),
         'labels': dataset_iterator.ArraySpec(np.dtype('float32'), (ROWS, 3))}
    if not self.train:
      s['__valid__'] = dataset_iterator.ArraySpec(np.dtype('bool'), (ROWS,))
    return s

  def __next__(self):
    self.n += 1
    if not self.train and self.n > 2:
      raise StopIteration
    if self.kill:
      self.kill(self.n)
    x = self.x.copy()
    x[:, 0] = self.n
    e = {'image': x, 'labels': self.y}
    if not self.train:
      e['__valid__'] = np.ones(ROWS, bool)
    return e

  def get_next(self):
    return next(self)

  def reset(self):
    self.n = 0

  def save(self, f):
    pass

  def restore(self, f):
    pass


def complete(wd):
  d = os.path.join(wd, 'ckpt')
  return sorted(int(x) for x in os.listdir(d) if re.fullmatch(r'\d+', x)) if os.path.isdir(d) else []


def listing(wd):
  return sorted(os.path.relpath(os.path.join(d, f), wd) for d, sub, fs in os.walk(wd) for f in fs + sub)


def settled(wd):
  """Nothing is being written or removed."""
  d = os.path.join(wd, 'ckpt')
  return not os.path.isdir(d) or all(re.fullmatch(r'\d+', x) or x in planted for x in os.listdir(d))


def final_state(wd, step):
  path = os.path.join(wd, 'ckpt', str(step), 'state')
  if not os.path.isdir(path):
    return -1
  tree = orbax.checkpoint.PyTreeCheckpointer().restore(path)
  leaves = jax.tree_util.tree_flatten_with_path(tree)[0]
  out = 0
  for p, v in sorted((jax.tree_util.keystr(p), v) for p, v in leaves):
    if v is not None:
      out = zlib.crc32(p.encode() + np.asarray(v).tobytes(), out)
  return out % 2**30


def config(c, opts):
  cfg = ml_collections.ConfigDict()
  cfg.dataset = {'train': {'batch_size': ROWS, 'prefetch_device': opts['prefetch']}, 'test': {'batch_size': ROWS}}
  if opts['epochs']:
    cfg.train_epochs = c['T']       # As many examples as rows in a batch.
  else:
    cfg.train_steps = c['T']
  cfg.model = {'name': 'Model'}
  cfg.loss = {'name': 'softmax_xent'}
  cfg.optimizer = {'name': 'sgd', 'momentum': .9, 'learning_rate': {
      'schedule': 'warmup_linear_decay', 'peak_value': .1, 'end_value': .01, 'warmup_steps': 1}}
  cfg.params_axis_resources = []
  cfg.extra_rng_keys = ('dropout', 'mixup') if opts['mixup'] else ('dropout',)
  if opts['mixup']:
    cfg.mixup = {'concentration': .5, 'granularity': 'device'}
  save = {'every_steps': c['every']}
  if c['keep']:
    save['keep_last'] = c['keep']
  if c['mult']:
    save['keep_steps_multiple_of'] = c['mult']
  cfg.save_checkpoint = save
  cfg.evaluate = {'every_steps': EVAL_EVERY}
  cfg.report_progress = {'every_steps': 1}
  cfg.seed = 2
  return cfg


mesh = trainer.partitioning.get_auto_logical_mesh(1, jax.devices())


def process(c, opts, wd, kill):
  """Runs one process; returns what it did and the disk it leaves."""
  seen.clear()
  run = dict(before=complete(wd), steps=[], evals=[], killed=False, settled=False)
  left = wd + '+'
  first = run['before'][-1] + 1 if run['before'] else 1
  abandoned = []

  def die():
    # The copy is of one moment: nothing changes while it is made.
    for _ in range(300):
      was = listing(wd)
      shutil.rmtree(left, ignore_errors=True)
      try:
        shutil.copytree(wd, left)
      except (shutil.Error, OSError):
        pass
      time.sleep(.03)
      if settled(wd) and was == listing(wd) == listing(left):
        break
    else:
      raise RuntimeError('the directory never settles')
    run['settled'] = True
    abandoned.append(1)
    raise Killed()

  def on_data(n):
    # The n-th batch is for step first + n - 1, if it is not taken ahead.
    if kill and kill['where'] in ('data', 'torn') and first + n - 1 == kill['at'] + 1:
      die()

  class Writer:
    def write_scalars(self, step, scalars):
      if 'train/total_loss' in scalars:
        run['steps'].append(int(step))
        if kill and kill['where'] == 'report' and step == kill['at']:
          die()
      if 'test/loss' in scalars:
        run['evals'].append(int(step))
        if kill and kill['where'] == 'eval' and step >= kill['at']:
          die()

    def __getattr__(self, name):
      return lambda *a, **k: None

  def data(_):
    return {'train': Data(on_data), 'test': Data(train=False)}

  with mock.patch.object(trainer.input_pipeline, 'get_datasets', data), \
       mock.patch.object(trainer.input_pipeline, 'get_data_num_examples', lambda c: ROWS), \
       mock.patch.object(trainer.models, 'Model', Model, create=True), mesh:
    try:
      trainer.train_and_evaluate(config(c, opts), wd, mesh, Writer())
    except Killed:
      run['killed'] = True
  jax.effects_barrier()
  run['batches'], run['params'] = [m for m, _ in seen], [k for _, k in seen]
  if run['killed']:
    wd = left            # What the abandoned process still does is lost.
  run['after'] = complete(wd)
  if run['killed'] and kill['where'] == 'torn' and run['after']:
    # The next one is being written.
    s = run['after'][-1]
    src = os.path.join(wd, 'ckpt', str(s))
    to = os.path.join(wd, 'ckpt', '%d.orbax-checkpoint-tmp-%d' % (
        (s // c['every'] + 1) * c['every'], h.rng.randint(1, 10**9)))
    shutil.copytree(src, to)
    planted.add(os.path.basename(to))
    files = [os.path.join(d, f) for d, _, fs in os.walk(to) for f in fs]
    for f in files:
      if h.rng.random() < .6:
        os.remove(f)
  run['left'] = complete(wd)
  return run, wd


truths = {}


def truth(c, opts):
  key = (c['T'], opts['mixup'])
  if key not in truths:
    wd = os.path.join(h.work, 'truth%d' % len(truths))
    r, wd = process(dict(c, every=100, keep=0, mult=0), dict(opts, epochs=False, prefetch=1), wd, None)
    truths[key] = (r['params'], final_state(wd, c['T']))
  return truths[key]


def history(c, i):
  opts = dict(mixup=h.shard % 2 == 0, epochs=h.rng.random() < .3, prefetch=h.rng.choice([0, 1, 2]))
  planted.clear()
  losses, last = truth(c, opts)
  wd = os.path.join(h.work, f'run{i}')
  runs = []
  for k in c['kills'] + [None]:
    r, wd = process(c, opts, wd, k)
    runs.append(r)
    if not runs[-1]['killed']:
      break
  final = final_state(wd, c['T'])
  again, wd = process(c, opts, wd, None)
  h.emit(op='history', T=c['T'], every=c['every'], keep=c['keep'], mult=c['mult'], evalevery=EVAL_EVERY,
         kills=c['kills'], torn=sorted(int(x.split('.')[0]) for x in planted), runs=runs, truth=losses, truthfinal=last, final=final,
         again=dict(steps=again['batches'], after=again['after'], final=final_state(wd, c['T'])))


def steps():
  s = h.rng.choice([None, None, 0, 3, 10])
  e4 = h.rng.choice([None, None, 0, 1, 2, 3, 4, 10, 50])
  batch, examples = h.rng.randint(1, 40), h.rng.randint(1, 200)
  got, err = attempt(trainer.get_train_steps_and_epochs, train_steps=s,
                     train_epochs=None if e4 is None else (e4 // 4 if e4 % 4 == 0 else e4 / 4),
                     train_batch_size=batch, train_examples=examples)
  if s == 0 and e4 or e4 == 0 and s:
    return                      # One given as zero: not specified.
  h.emit(op='steps', steps=s or 0, epochs4=e4 or 0, batch=batch, examples=examples, rejected=bool(err),
         got=got[0] if got else 0, gotepochs=int(round(got[1] * 1000)) if got else 0)


cases = list(h.cases)
h.rng.shuffle(cases)
many = [c for c in cases if len(c['kills']) == 2]
few = [c for c in cases if len(c['kills']) < 2]
todo = []
for a, b in zip(few, many):
  todo += [a, b]
for i, c in enumerate(todo[:h.share(260 if h.thorough else 26)]):
  history(c, i)
if h.shard == 0:
  for _ in range(400):
    steps()
h.close()
