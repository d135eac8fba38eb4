"""Updates by the real optimizers."""
import flax
from common import H, attempt, fixed
import jax
import jax.numpy as jnp
import numpy as np
import optax
import rx
from vmoe.train import optimizer

h = H()
S = 4096
KEYS = ['a', 'b', 'ab', 'ba', 'aa', 'c']
PATS = h.cases


def names():
  """Paths, none of which is the beginning of another."""
  out = set()
  for _ in range(h.rng.randint(2, 5)):
    p = tuple(h.rng.choice(KEYS) for _ in range(h.rng.randint(1, 3)))
    if not any(p[:len(q)] == q or q[:len(p)] == p for q in out):
      out.add(p)
  out = sorted(out)
  h.rng.shuffle(out)           # The order of insertion is any.
  return out


def nest(paths, values):
  out = {}
  for p, v in zip(paths, values):
    d = out
    for k in p[:-1]:
      d = d.setdefault(k, {})
    d[p[-1]] = v
  return out


def get(tree, p):
  for k in p:
    tree = tree[k]
  return tree


def pats(n):
  return [h.rng.choice(PATS) for _ in range(n)]


def rules(values):
  return [dict(p=p, v=h.rng.choice(values)) for p in pats(h.rng.randint(0, 3))]


def history(n):
  paths = names()
  opt = h.rng.choice(['sgd', 'sgd', 'sgd', 'adam', 'big_vision_adafactor'])
  r = dict(opt=opt, mu=h.rng.choice([0, 1]), nesterov=False, scale=rules([1, 2, 4]), decay=[], decayall=-1,
           freeze=h.rng.choice(['none', 'frozen', 'trainable']), clip=h.rng.choice(['none', 'abs', 'norm']),
           limit=h.rng.choice([1, 2, 3]), lr=h.rng.choice([16, 8, 4, 0]), pats=[])
  kw = dict(name=opt, total_steps=4)
  if opt != 'sgd':
    if r['clip'] == 'norm':
      r['clip'] = 'none'
  if opt == 'sgd':
    r['nesterov'] = bool(r['mu'] and h.rng.random() < .3)
    if r['mu']:
      kw['momentum'] = .5
    if r['nesterov']:
      kw['nesterov'] = True
  elif opt == 'adam':
    kw.update(b1=.5, b2=.75, eps=1e-12)
  else:
    kw['momentum'] = .5 if r['mu'] else None
  how = h.rng.choice(['none', 'all', 'rules', 'rules'])
  if how == 'all':
    r['decayall'] = h.rng.choice([0, 2, 4])
    kw['weight_decay'] = r['decayall'] / 16
  elif how == 'rules':
    r['decay'] = rules([0, 2, 4, 8])
    kw['weight_decay'] = h.rng.choice([list, tuple])((rx.render(q['p']), q['v'] / 16) for q in r['decay'])
  if r['scale'] or h.rng.random() < .5:
    kw['gradient_scale'] = [(rx.render(q['p']), q['v'] / 2) for q in r['scale']]
  if r['clip'] != 'none':
    kw['gradient_clip'] = {{'abs': 'absolute_value', 'norm': 'global_norm'}[r['clip']]: float(r['limit'])}
  if r['freeze'] != 'none':
    r['pats'] = pats(h.rng.randint(1, 2))
    texts = [rx.render(p) for p in r['pats']]
    kw[r['freeze'] + '_pattern'] = (
        h.rng.choice([texts[0], texts]) if len(texts) == 1 else h.rng.choice([texts, tuple(texts)]))
  kw['learning_rate'] = r['lr'] / 16 if r['lr'] else {
      'schedule': 'warmup_linear_decay', 'peak_value': 1., 'end_value': 0., 'warmup_steps': 2}
  tx = optimizer.create_optimizer(**kw)

  shape = {p: h.rng.choice([(), (1,), (2,), (2, 2) if len(paths) < 3 else (2,)]) for p in paths}
  wrap = flax.core.freeze if h.rng.random() < .3 else (lambda t: t)
  # Scaled gradients must not be too large for the judge's integers.
  grads = [wrap(nest(paths, [jnp.asarray(h.np.randint(-4, 5, size=shape[p]).astype('float32')) for p in paths]))
           for _ in range(h.rng.randint(1, 4))]
  if h.rng.random() < .5:
    # As differentiation gives them: in canonical order.
    grads = [jax.tree_util.tree_map(lambda x: x, g) for g in grads]
  params = wrap(nest(paths, [jnp.asarray(h.np.randint(-3, 4, size=shape[p]).astype('float32')) for p in paths]))
  first = params

  def run(update):
    p, st, out = first, tx.init(first), []
    for g in grads:
      u, st = update(g, st, p)
      q = optax.apply_updates(p, u)
      out.append((g, p, q, st))
      p = q
    return out

  steps = run(tx.update)
  flat = lambda t, scale: [fixed(np.asarray(get(t, p)).ravel(), scale) for p in paths]
  same = lambda a, b: [np.asarray(get(a, p)).tobytes() == np.asarray(get(b, p)).tobytes() for p in paths]
  jit = True
  if n % 10 == 0:
    other = run(jax.jit(tx.update))
    jit = all(np.allclose(x, y, atol=1e-4) for s, t in zip(steps, other)
              for x, y in zip(jax.tree_util.tree_leaves(s[2]), jax.tree_util.tree_leaves(t[2])))
  def rate(st):
    found = [x for x in jax.tree_util.tree_leaves(st, is_leaf=lambda v: hasattr(v, 'hyperparams'))
             if hasattr(x, 'hyperparams')]
    return fixed(found[0].hyperparams['learning_rate'], 16000) if len(found) == 1 else -1
  r['scale'] = [dict(p=rx.spell(q['p']), v=q['v']) for q in r['scale']]
  r['decay'] = [dict(p=rx.spell(q['p']), v=q['v']) for q in r['decay']]
  r['pats'] = [rx.spell(p) for p in r['pats']]
  h.emit(op='history', paths=[rx.chars('/'.join(p)) for p in paths], jit=bool(jit),
         struct=jax.tree_util.tree_structure(steps[-1][2]) == jax.tree_util.tree_structure(params),
         seq=[dict(g=flat(g, 1), before=flat(p, S), after=flat(q, S), same=same(p, q), lr=rate(st))
              for g, p, q, st in steps], **r)


def rejects():
  base = dict(name='sgd', total_steps=4, learning_rate=1.)
  for kw, bad in [
      ({}, False), ({'name': 'nope'}, True), ({'name': 'SGD'}, True),
      ({'frozen_pattern': 'a', 'trainable_pattern': 'b'}, True),
      ({'frozen_pattern': ['a'], 'trainable_pattern': ['b']}, True),
      ({'gradient_clip': {'global_norm': 1., 'absolute_value': 1.}}, True),
      ({'gradient_clip': {}}, False), ({'gradient_clip': None}, False),
      ({'learning_rate': {'schedule': 'nope', 'value': 1.}}, True),
      ({'learning_rate': 1}, False), ({'weight_decay': 0}, False), ({'weight_decay': None}, False)]:
    _, err = attempt(optimizer.create_optimizer, **{**base, **kw})
    h.emit(op='reject', rejected=bool(err), bad=bad)
  tx = optimizer.create_optimizer(**base, weight_decay=.5)
  p = {'a': jnp.ones(2)}
  _, err = attempt(tx.update, p, tx.init(p))
  h.emit(op='reject', rejected=bool(err), bad=True)


for i in range(h.share(6000 if h.thorough else 900)):
  history(i)
if h.shard == 0:
  rejects()
h.close()
