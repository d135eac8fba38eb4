"""Saves which are killed, or whose file operations fail, at every point."""
import ctypes
import itertools
import os
import shutil
import signal
import threading
import time

from common import H, attempt
import jax
import jax.numpy as jnp
import multiprocessing.pool
import numpy as np
from vmoe.checkpoints import base
from vmoe.checkpoints import partitioned

lib = ctypes.CDLL(os.environ['LD_PRELOAD'])
lib.vf_kinds.restype = ctypes.c_char_p
OFF, COUNT, CRASH, MID, FAIL, VECTOR = range(6)
h = H()
counter = [0]


def value(kind, n):
  rs = np.random.RandomState(dict(old=3, new=5, prev=7)[kind])
  return {'w': rs.randint(0, 1000, n).astype(np.int32),
          'b': rs.randn(3).astype(np.float32)}


def same(a, b):
  return (jax.tree_util.tree_structure(a) == jax.tree_util.tree_structure(b)
          and all(np.array_equal(x, y) for x, y in zip(
              jax.tree_util.tree_leaves(a), jax.tree_util.tree_leaves(b))))


class Single:
  """One file."""
  suffixes = None
  nfiles = 1

  def __init__(self, size, use_async, initial):
    self.size, self.use_async, self.initial = size, use_async, initial
    self.label = f'single{"_async" if use_async else ""}'

  def paths(self, d):
    return [d + 'ckpt_20']

  def save(self, d, pool):
    fn = base.save_checkpoint_async if self.use_async else base.save_checkpoint
    r = fn(d + 'ckpt_20', value('new', self.size))
    if self.use_async:
      r.get()

  def prepare(self, d):
    base.save_checkpoint(d + 'ckpt_3', value('prev', 9))
    if self.initial == 'old':
      base.save_checkpoint(d + 'ckpt_20', value('old', self.size))

  def state(self, d):
    p = d + 'ckpt_20'
    if not os.path.exists(p):
      return ['absent']
    v, err = attempt(base.restore_checkpoint, p)
    for k in ('old', 'new'):
      if not err and same(v, value(k, self.size)):
        return [k]
    return ['broken']


class Multi:
  """Index and data files of one step."""
  suffixes = ('.index', '.data')
  initial = 'absent'
  label = 'multi'

  def __init__(self, size, nshards):
    self.size, self.nshards, self.nfiles = size, nshards, nshards + 1

  def paths(self, d):
    return [d + 'ckpt_20.index'] + [
        base.add_shard_suffix(d + 'ckpt_20.data', i, self.nshards)
        for i in range(self.nshards)]

  def content(self, kind):
    return {p: value(kind, self.size + i)
            for i, p in enumerate(self.paths(''))}

  def prepare(self, d):
    base.save_multiple_checkpoints_async(
        {d + p.replace('_20', '_3'): v
         for p, v in self.content('prev').items()}).get()

  def save(self, d, pool):
    base.save_multiple_checkpoints_async(
        {d + p: v for p, v in self.content('new').items()},
        thread_pool=pool).get()

  def state(self, d):
    out = []
    for p, want in self.content('new').items():
      if not os.path.exists(d + p):
        out.append('absent')
        continue
      v, err = attempt(base.restore_checkpoint, d + p)
      out.append('new' if not err and same(v, want) else 'broken')
    return out


class Sharded(Multi):
  """A sharded checkpoint of device arrays."""
  label = 'sharded'

  def __init__(self, size, nshards):
    super().__init__(size, nshards)
    v = value('new', size)
    self.tree = {'m': {k: jnp.asarray(x) for k, x in v.items()},
                 'x': jnp.arange(41.)}
    jax.block_until_ready(self.tree)
    d = os.path.join(h.work, 'ref%d_%d' % (size, nshards)) + '/'
    os.makedirs(d)
    self.save(d, None)
    self.ref = {}
    for p in self.paths(''):
      with open(d + p, 'rb') as fp:
        self.ref[p] = fp.read()

  def prepare(self, d):
    partitioned.save_checkpoint(d + 'ckpt_3', {'x': self.tree['x'] + 1},
                                makedirs=False).get()

  def save(self, d, pool):
    partitioned.save_checkpoint(
        d + 'ckpt_20', self.tree, makedirs=False, num_shards=self.nshards,
        max_chunk_bytes=64, thread_pool=pool).get()

  def state(self, d):
    out = []
    for p, want in self.ref.items():
      if not os.path.exists(d + p):
        out.append('absent')
        continue
      with open(d + p, 'rb') as fp:
        out.append('new' if fp.read() == want else 'broken')
    if all(x == 'new' for x in out):
      v, err = attempt(partitioned.restore_checkpoint, d + 'ckpt_20', None)
      if err or not same(v, jax.tree_util.tree_map(np.asarray, self.tree)):
        out = ['broken'] * len(out)
    return out


def child(sc, d, mode, at, vector):
  # A fork of a process with threads can deadlock: that is not the code's doing.
  for _ in range(3):
    out = child_once(sc, d, mode, at, vector)
    if out[0] != 'hung' or mode not in (OFF, COUNT):
      break
  return out


def child_once(sc, d, mode, at, vector):
  """Runs the save in a forked process; 'ok', 'error' or 'killed'."""
  r, w = os.pipe()
  pid = os.fork()
  if pid == 0:
    try:
      os.close(r)
      lib.vf_root(d.encode())
      for i, p in enumerate(sc.paths('')):
        lib.vf_name(i, p.encode())
        if vector:
          lib.vf_budget(i, vector[i])
      pool = multiprocessing.pool.ThreadPool(max(4, sc.nfiles))
      if mode == VECTOR:
        lib.vf_watch()
      lib.vf_arm(mode, at)
      out = b'ok'
      try:
        sc.save(d, pool)
      except Exception:  # pylint: disable=broad-except
        out = b'error'
      ops, kinds = lib.vf_ops(), lib.vf_kinds()
      lib.vf_arm(OFF, 0)
      os.write(w, out + b' %d ' % ops + (kinds or b'-'))
    finally:
      os._exit(0)
  os.close(w)
  t0 = time.time()
  while True:
    p, _ = os.waitpid(pid, os.WNOHANG)
    if p:
      break
    if time.time() - t0 > 10:
      os.kill(pid, signal.SIGKILL)
      os.waitpid(pid, 0)
      os.close(r)
      return 'hung', 0, ''
    time.sleep(.002)
  data = os.read(r, 10000).split()
  os.close(r)
  if not data:
    return 'killed', 0, ''
  return data[0].decode(), int(data[1]), data[2].decode()


def latest(sc, d):
  p, err = attempt(base.find_latest_complete_checkpoint_for_prefix,
                   d + 'ckpt', sc.suffixes)
  if err:
    return -1
  return 0 if p is None else int(p.rsplit('_', 1)[1])


def scenario(sc, mode, at=0, vector=None, note='none'):
  counter[0] += 1
  d = os.path.join(h.work, f'd{counter[0]}') + '/'
  os.makedirs(d)
  sc.prepare(d)
  with open(d + 'other.txt', 'w') as fp:
    fp.write('hello')
  with open(d + 'ckpt_best_99.data-00000-of-00001', 'w') as fp:
    fp.write('other')
  watched = [x for x in sorted(os.listdir(d)) if '_20' not in x]
  keep = {x: open(d + x, 'rb').read() for x in watched}
  before = sc.state(d)
  out, ops, kinds = child(sc, d, mode, at, vector)
  after, rep = sc.state(d), latest(sc, d)
  bystander = all(os.path.exists(d + x) and open(d + x, 'rb').read() == v
                  for x, v in keep.items())
  # Run the save again, as a restarted job does.
  again_out, _, _ = child(sc, d, OFF, 0, None)
  h.emit(op='fault', scenario=sc.label, files=sc.nfiles, mode=note, at=at,
         vector=vector or [], outcome=out, before=before, after=after,
         step=20, older=3, latest=rep, bystander=bystander,
         again=sc.state(d) if again_out == 'ok' else ['not saved'],
         again_latest=latest(sc, d))
  shutil.rmtree(d)
  return out, ops, kinds


big = 400000
scs = [Single(50, False, 'absent'), Single(50, False, 'old'),
       Single(big, True, 'old'), Single(50, True, 'absent'), Multi(30, 2),
       Sharded(60, 2), Sharded(200, 1)]
if h.thorough:
  scs += [Multi(30, 5), Sharded(333, 4), Multi(big, 3), Single(big, False, 'old')]
for sc in scs:
  _, n, kinds = scenario(sc, COUNT)
  for at in range(1, n + 2):
    scenario(sc, CRASH, at, note='crash')
    scenario(sc, FAIL, at, note='fail')
    if at <= n and kinds[at - 1] == 'w':
      scenario(sc, MID, at, note='midcrash')
vecs = [v for v in h.cases]
h.rng.shuffle(vecs)
if not h.thorough:
  vecs = vecs[:70]
for i, v in enumerate(vecs):
  for sc in ([scs[4 + i % 2]] if not h.thorough else [scs[4], scs[5]]):
    scenario(sc, VECTOR, 0, vector=v, note='vector')

# A refused overwrite leaves the old checkpoint as it was, and found.
for use_async in (False, True):
  d = os.path.join(h.work, f'ref{use_async}') + '/'
  os.makedirs(d)
  sc = Single(50, use_async, 'old')
  sc.prepare(d)
  fn = base.save_checkpoint_async if use_async else base.save_checkpoint
  def go():
    r = fn(d + 'ckpt_20', value('new', 50), overwrite=False)
    return r.get() if use_async else r
  _, err = attempt(go)
  h.emit(op='refused', raised=bool(err), content=sc.state(d)[0], step=20,
         latest=latest(sc, d))

# Asynchronous saves are isolated from what happens to the arrays afterwards.
donate = jax.jit(lambda x: x * 2 + 1, donate_argnums=0)
for trial, how in enumerate(itertools.product(
    ['delete', 'donate', 'rebind'], [1, 3], [None, 16])):
  what, shards, chunk = how
  pool = multiprocessing.pool.ThreadPool(2)
  gate = threading.Event()
  blockers = [pool.apply_async(gate.wait) for _ in range(2)]
  base_val = np.arange(64, dtype=np.int32).reshape(8, 8) + 1000 * trial
  tree = {'a': jnp.asarray(base_val) + 0, 'n': {'b': jnp.asarray(base_val) * 3}}
  jax.block_until_ready(tree)
  prefix = os.path.join(h.work, f'iso{trial}', 'ckpt_1')
  res = partitioned.save_checkpoint(prefix, tree, num_shards=shards,
                                    max_chunk_bytes=chunk, thread_pool=pool)
  if what == 'delete':
    jax.tree_util.tree_map(lambda x: x.delete(), tree)
  elif what == 'donate':
    tree = jax.tree_util.tree_map(donate, tree)
    jax.block_until_ready(tree)
  else:
    tree['a'] = jnp.zeros((8, 8), jnp.int32)
    tree['n']['b'] = tree['a'] + 1
  junk = [jnp.full((8, 8), -i, jnp.int32) + 0 for i in range(50)]
  jax.block_until_ready(junk)
  gate.set()
  res.get()
  got = partitioned.restore_checkpoint(prefix, None)
  h.emit(op='isolated', how=what,
         got=[np.asarray(got['a']).ravel().tolist(),
              np.asarray(got['n']['b']).ravel().tolist()],
         want=[base_val.ravel().tolist(), (base_val * 3).ravel().tolist()])
h.close()
os._exit(0)
