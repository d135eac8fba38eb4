"""Losses and predictions of ensembles whose probabilities are known."""
from common import H, attempt, fixed
import jax
import numpy as np
from vmoe.train import trainer

h = H()


def fns(kind, m):
  return trainer.get_loss_fn(f'ensemble_{kind}_xent', ensemble_size=m)


def plain(kind):
  return trainer.get_loss_fn(f'{kind}_xent')


def losses(c):
  kind, nb, m, nc = c['kind'], c['B'], c['M'], c['C']
  if kind == 'softmax':
    w = h.np.randint(1, 9, size=(nb, m, nc))
    logits = np.log(w) + h.np.randint(-3, 4, size=(nb, m, 1))
    y = np.eye(nc)[h.np.randint(nc, size=nb)]
  else:
    w = h.np.randint(1, 6, size=(nb, m, nc, 2))
    logits = np.log(w[..., 0]) - np.log(w[..., 1])
    y = h.np.randint(0, 2, size=(nb, nc))
  rows = logits.reshape(nb * m, nc).astype('float32')
  y = y.astype('float32')
  tr, ev, pr = fns(kind, m)
  if h.rng.random() < .95:
    tr, ev, pr = map(jax.jit, (tr, ev, pr))
  t, e, p = np.asarray(tr(rows, y)), np.asarray(ev(rows, y)), np.asarray(pr(rows))
  one = [True] * 3
  if m == 1:
    a, b, d = plain(kind)
    # The class of highest probability may not be unique.
    tie = np.sort(rows, -1)
    sure = np.ones(nb, bool) if nc == 1 else tie[:, -1] - tie[:, -2] > 1e-4
    one = [np.allclose(a(rows, y), t, atol=1e-4), np.allclose(b(rows, y), e, atol=1e-4),
           np.array_equal(np.asarray(d(rows))[sure], p[sure])]
  h.emit(op='losses', kind=kind, B=nb, M=m, C=nc, w=w.tolist(), y=y.astype(int).tolist(),
         train=fixed(np.exp(-t.astype('float64')), 10000), eval=fixed(np.exp(-e.astype('float64')), 10000),
         pred=p.tolist(), plain=bool(one[0]), plaineval=bool(one[1]), plainpred=bool(one[2]))
  if kind == 'softmax':
    # Labels which are distributions, in quarters.
    y4 = np.zeros((nb, nc), int)
    for row in y4:
      for _ in range(4):
        row[h.rng.randrange(nc)] += 1
    hot = [np.eye(nc, dtype='float32')[[k] * nb] for k in range(nc)]
    h.emit(op='linear', B=nb, M=m, C=nc, y4=y4.tolist(),
           eval=fixed(ev(rows, (y4 / 4).astype('float32')), 1000),
           train=fixed(tr(rows, (y4 / 4).astype('float32')), 1000),
           onehot=[fixed(ev(rows, o), 1000) for o in hot],
           onehott=[fixed(tr(rows, o), 1000) for o in hot])


def extreme(nb, m, nc):
  l = h.np.randint(-2, 3, size=(nb, m, nc)) * h.rng.choice([1, 60, 300])
  y = h.np.randint(nc, size=nb)
  tr, ev = map(jax.jit, fns("softmax", m)[:2])
  rows = l.reshape(nb * m, nc).astype('float32')
  hot = np.eye(nc, dtype='float32')[y]
  # A class that no member can predict, and no label has.
  more = np.concatenate([rows, np.full((nb * m, 1), -np.inf, 'float32')], 1)
  e = ev(rows, hot)
  e2 = ev(more, np.concatenate([hot, np.zeros((nb, 1), 'float32')], 1))
  h.emit(op='extreme', B=nb, M=m, C=nc, l=l.tolist(), y=(y + 1).tolist(),
         eval=fixed(e, 1), train=fixed(tr(rows, hot), 1), zero=bool(np.allclose(e, e2, atol=1e-3)))


for c in (h.cases if h.thorough else h.rng.sample(h.cases, min(h.share(90), len(h.cases)))):
  for _ in range(3 if h.thorough else 1):
    losses(c)
for _ in range(h.share(200 if h.thorough else 18)):
  extreme(4, h.rng.randint(1, 3), h.rng.randint(2, 4))
for name in ('nothing', 'ensemble_xent', 'softmax'):
  h.emit(op='unknown', rejected=bool(attempt(trainer.get_loss_fn, name)[1]))
h.close()
