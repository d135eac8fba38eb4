"""Real summaries of trees of integer arrays."""
import re

from common import H, attempt, fixed
import jax.numpy as jnp
import numpy as np
import rx
from vmoe.train import tree_summarizer
from vmoe.train import trainer

h = H()
PARTS = ['a', 'b', 'ab', 'ba', 'aa']


def shape():
  while True:
    s = [h.rng.choice([1, 1, 2, 2, 3, 4]) for _ in range(h.rng.choice([0, 1, 1, 2, 2, 3]))]
    if np.prod(s) <= 12:
      return s


def leaf():
  s = shape()
  n = int(np.prod(s))
  return np.asarray(h.np.randint(-3, 4, s) * n, 'float32' if h.rng.random() < .7 else 'int32')


def tree(depth=0):
  kind = h.rng.choice(['leaf', 'dict', 'dict', 'list'] if depth else ['dict'])
  if kind == 'leaf' or depth > 2:
    return leaf()
  n = h.rng.randint(1, 3)
  if kind == 'list':
    return [tree(depth + 1) for _ in range(n)]
  return {k: tree(depth + 1) for k in h.rng.sample(PARTS, n)}


def leaves(t, path=()):
  """Names and arrays of the leaves."""
  if isinstance(t, dict):
    return [x for k, v in t.items() for x in leaves(v, path + (k,))]
  if isinstance(t, list):
    return [x for i, v in enumerate(t) for x in leaves(v, path + (str(i),))]
  return [('/'.join(path), t)]


def as_jax(t):
  if isinstance(t, dict):
    return {k: as_jax(v) for k, v in t.items()}
  return [as_jax(v) for v in t] if isinstance(t, list) else jnp.asarray(t)


def transform(last, wild):
  op = h.rng.choice(['sum', 'mean', 'min', 'max'] + (['norm', 'std'] if last else []))
  if wild and h.rng.random() < .15:
    op = 'median'
  mode = h.rng.choice(['all', 'all', 'int', 'tuple', 'list'])
  if mode == 'all':
    return op, dict(op=op, all=True, axes=[], text='')
  n = 1 if mode == 'int' else h.rng.choice([1, 1, 2])
  pool = [0, 1, -1, 2] if wild else [0]
  axes = h.rng.sample(pool, min(n, len(pool)))
  arg = axes[0] if mode == 'int' else tuple(axes) if mode == 'tuple' else list(axes)
  return (op, arg), dict(op=op, all=False, axes=axes, text=repr(tuple(axes)))


def one(pats):
  t = tree()
  wild = h.rng.random() < .35
  rules, told = [], []
  for _ in range(h.rng.randint(1, 3)):
    p = h.rng.choice(pats)
    n = h.rng.choice([0, 1, 1, 2])
    ts = [transform(i == n - 1, wild) for i in range(n)]
    if not wild and h.rng.random() < .7:
      # All leaves fit: what is left is reduced to a scalar.
      ts = (ts[:1] if ts and ts[0][1]['op'] not in ('norm', 'std') else []) + [
          (o, dict(op=o, all=True, axes=[], text='')) for o in [h.rng.choice(['sum', 'mean', 'max', 'norm', 'std'])]]
    pat = rx.render(p)
    pat = re.compile(pat) if h.rng.random() < .3 else pat
    rules.append(pat if not ts and h.rng.random() < .7 else (pat,) + tuple(x for x, _ in ts))
    told.append(dict(p=rx.spell(p), ts=[y for _, y in ts]))
  most = h.rng.choice([1, 4, 12, 12])
  how = h.rng.choice(['direct', 'config', 'config']) if most != 1 else 'list'
  made = {}

  def summarize():
    if 's' not in made:
      if how == 'direct':
        made['s'] = tree_summarizer.TreeSummarizer(rules=rules, max_summary_values=most)
      elif how == 'config':
        made['s'] = trainer.create_tree_summarizer(dict(rules=rules, max_summary_values=most))
      else:
        made['s'] = trainer.create_tree_summarizer(as_list(rules))
    return list(made['s'](arrays))

  as_list = h.rng.choice([list, tuple])
  found = leaves(t)
  arrays = as_jax(t)
  got, err = attempt(summarize)
  again, err2 = attempt(summarize)
  same = err == err2 and (bool(err) or (len(got) == len(again) and all(a[0] == b[0] and a[1] == b[1] for a, b in zip(got, again))))
  h.emit(op='summary', leaves=[dict(name=rx.chars(k), text=k, shape=list(v.shape), v=[int(x) for x in v.ravel()]) for k, v in found],
         rules=told, most=most, rejected=bool(err), error=err, again=same,
         got=[dict(name=k, v=fixed(v, 100), shape=list(np.shape(v))) for k, v in got or []])


plain = [dict(start=False, end=False, atoms=[dict(k=k, w=w)])
         for k, w in [('word', 'a'), ('word', 'b'), ('any', ''), ('star', ''), ('set', 'ab'), ('word', '/')]]
for _ in range(h.share(6000 if h.thorough else 900)):
  one(plain if h.rng.random() < .4 else h.cases)
h.close()
