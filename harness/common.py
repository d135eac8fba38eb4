"""Helpers of the harnesses: arguments, deterministic randomness, recording."""
import argparse
import json
import os
import random
import sys
import traceback

import numpy as np


def _die(kind, value, tb):
  # At once: a distributed process would otherwise wait for its peers.
  traceback.print_exception(kind, value, tb)
  sys.stderr.flush()
  os._exit(1)


sys.excepthook = _die


class H:
  def __init__(self, **extra):
    ap = argparse.ArgumentParser()
    ap.add_argument('--out', required=True)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--cases')
    ap.add_argument('--part', default='')
    self.args = ap.parse_args()
    self.seed, self.tier = self.args.seed, self.args.tier
    self.thorough = self.tier == 'thorough'
    self.part = self.args.part
    self.shard = int(os.environ.get('VERIF_SHARD', '0'))
    self.shards = int(os.environ.get('VERIF_SHARDS', '1'))
    self.rng = random.Random(self.seed * 7919 + 13 + 1000003 * self.shard)
    self.np = np.random.RandomState((self.seed * 7919 + 1009 * self.shard) % (2**31) + 17)
    self.cases = None
    if self.args.cases:
      with open(self.args.cases) as fp:
        self.cases = json.load(fp)
      if self.shards > 1:
        random.Random(self.seed).shuffle(self.cases)
        self.cases = self.cases[self.shard::self.shards]
    self.fp = open(self.args.out, 'w')
    self.work = os.environ.get('VERIF_WORK', '.')

  def share(self, n):
    """How many of n things this shard does."""
    return len(range(self.shard, n, self.shards))

  def emit(self, **rec):
    self.fp.write(json.dumps(rec) + '\n')

  def close(self):
    self.fp.close()


def ints(x, scale=1):
  """Nested lists of exact integers; a non-integral entry becomes 987654321."""
  a = np.asarray(x, dtype=np.float64) * scale
  r = np.rint(a)
  ok = np.isfinite(a) & (np.abs(a - r) < 1e-9) & (np.abs(r) < 2**30)
  return np.where(ok, np.where(np.isfinite(a), r, 0), 987654321).astype(
      np.int64).tolist()


def fixed(x, scale=1000000):
  """Fixed-point integers (rounded); NaN/inf/overflow become 2000000000."""
  a = np.asarray(x, dtype=np.float64) * scale
  ok = np.isfinite(a) & (np.abs(a) < 1.9e9)
  return np.where(ok, np.rint(np.where(ok, a, 0)), 2000000000).astype(
      np.int64).tolist()


def attempt(fn, *args, **kw):
  """(value, '') or (None, name of the exception)."""
  try:
    return fn(*args, **kw), ''
  except Exception as e:  # pylint: disable=broad-except
    return None, type(e).__name__
