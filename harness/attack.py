"""Real adversarial attacks: walks, counters, listed experts, whole runs."""
import os
import shutil
from unittest import mock

from common import H, fixed, ints
import jax
import jax.numpy as jnp
import ml_collections
import numpy as np
import optax
import tensorflow as tf
from vmoe import checkpoints
from vmoe import moe
from vmoe.data import input_pipeline
from vmoe.nn import vit_moe
from vmoe.projects.adversarial_attacks import attacks
from vmoe.projects.adversarial_attacks import lib
from vmoe.projects.adversarial_attacks import restore
from vmoe.train import train_state as train_state_lib
from vmoe.train import trainer

h = H()
U = 64


def key_str(k):
  return '-'.join(str(int(v)) for v in np.asarray(k).ravel())


def problem(c):
  """An integer walk and the functions that cause it."""
  b, d = h.rng.choice([1, 2, 4]), h.rng.choice([3, 6])
  p = dict(images=h.np.randint(-30, 31, (b, d)), centre=h.np.randint(-30, 31, d),
           weight=h.np.randint(-1, 2, (3, d)), slant=h.np.randint(-1, 2, d),
           labels=h.np.randint(0, c['labels'], b))
  p['step'] = 1 << c['shift']
  p['eps'] = c['updates'] * p['step'] / U
  shape = h.rng.choice([(b, d), (b, d // 3, 3), (b, 1, d // 3, 3)])
  used = []

  def apply_fn(x, rngs=None):
    if rngs is not None:
      jax.debug.callback(lambda k: used.append(key_str(k)), rngs['a'])
    x = x.reshape(b, d)
    return x, {'auxiliary_loss': x @ jnp.asarray(p['slant'], jnp.float32)}

  def loss_fn(logits, labels):
    w = labels @ jnp.asarray(p['weight'], jnp.float32)
    return jnp.sum(w * (logits - jnp.asarray(p['centre'] / U, jnp.float32)) ** 2, axis=-1)

  x = jnp.asarray(p['images'] / U, jnp.float32).reshape(shape)
  return p, x, jax.nn.one_hot(p['labels'], 3), apply_fn, loss_fn, used


def streams(c):
  if c['rngs'] == 'none':
    return h.rng.choice([None, {}])
  return {k: jax.random.PRNGKey(h.rng.randint(0, 10**6)) for k in {'one': 'a', 'two': 'ab'}[c['rngs']]}


def told(p, c):
  return dict(images=p['images'].tolist(), centre=p['centre'].tolist(), weight=p['weight'].tolist(), slant=p['slant'].tolist(),
              labels=(p['labels'] + 1).tolist(), step=p['step'], updates=c['updates'], aux=c['aux'])


def pgd(c):
  p, x, y, apply_fn, loss_fn, used = problem(c)
  rngs = streams(c)

  def loss(logits, labels, metrics):
    out = loss_fn(logits, labels)
    return out + jnp.mean(metrics['auxiliary_loss']) if c['aux'] else out

  # Without keys the model is called with rngs=None or with an empty dictionary.
  fn = apply_fn if rngs else lambda x, rngs=None: apply_fn(x)
  got, new = jax.jit(lambda x, y, r: attacks.stateless_attack_pgd(
      x, y, r, max_epsilon=p['eps'], num_updates=c['updates'], apply_fn=fn, loss_fn=loss))(x, y, rngs)
  jax.effects_barrier()
  h.emit(op='pgd', got=ints(got.reshape(p['images'].shape), U), streams=len(rngs or {}), used=list(used),
         before=key_str(rngs['a']) if rngs else '', after=key_str(new['a']) if rngs else '',
         names=sorted(rngs or {}), namesAfter=sorted(new or {}), **told(p, c))


def train(c):
  p, x, y, apply_fn, loss_fn, used = problem(c)
  rngs = streams(c)
  state = train_state_lib.TrainState.create(
      apply_fn=lambda v, x, rngs=None: apply_fn(x * v['params']['w'], rngs), params={'w': jnp.ones(())}, tx=optax.sgd(.1), rngs=rngs)

  def step(state, images, labels, *args, **kw):
    return state, dict(images=images, labels=labels, args=args, kw=kw)

  fn = trainer.wrap_train_step_with_adversarial_attack(
      step, loss_fn, attack_auxiliary_loss=c['aux'], max_epsilon=0. if c['off'] else p['eps'], num_updates=c['updates'])
  new, out = jax.jit(fn)(state, x, y, jnp.asarray(5), more=jnp.asarray(7))
  jax.effects_barrier()
  h.emit(op='train', got=ints(out['images'].reshape(p['images'].shape), U), used=list(used), before=key_str(rngs['a']),
         after=key_str(new.rngs['a']), wrapped=fn is not step, off=c['off'],
         labelsAfter=(np.argmax(out['labels'], -1) + 1).tolist(), paramsKept=float(new.params['w']) == 1 and int(new.step) == 0,
         extraKept=len(out['args']) == 1 and int(out['args'][0]) == 5 and int(out['kw'].get('more', 0)) == 7, **told(p, c))


def count(c):
  n, T, E = c['size'], 2, 3
  names = ['r%d/__call__' % i for i in range(c['routers'])]
  state = attacks.AttackState.create(max_updates=2, router_keys=names, rngs={'a': jax.random.PRNGKey(0)})
  batches = []

  @jax.jit
  def run(state, x, y, valid, facts):
    def stateless(images, labels, rngs):
      return images + 1, {'a': jax.random.split(rngs['a'])[0]}

    def predict(images, labels, rngs):
      after = (images[0, 0] > .5).astype(jnp.int32)
      f = jax.tree_util.tree_map(lambda v: v[after], facts)
      return f['l'], f['y'], f['c'], {k: f['cw'][i] for i, k in enumerate(names)}

    return attacks.stateful_attack(state, x, y, valid, stateless_attack_fn=stateless, compute_loss_predict_correct_cw_fn=predict)

  for _ in range(c['batches']):
    facts = dict(l=h.np.randint(0, 50, (2, n)).astype('float32'), y=h.np.randint(0, 3, (2, n)),
                 c=h.np.randint(0, 2, (2, n)).astype('float32'),
                 cw=[h.np.randint(0, 2, (2, n, T, E)) * h.np.choice([.25, .5], (2, n, T, E)) for _ in names])
    valid = {'all': np.ones(n, bool), 'none': np.zeros(n, bool), 'absent': None,
             'some': h.np.rand(n) < .6}[c['valid']]
    if valid is not None and h.rng.random() < .3:
      valid = valid.astype('float32')
    state, x_m, l0, lm, y0, ym, cw0, cwm = run(state, jnp.zeros((n, 2)), jnp.ones((n, 3)), valid, facts)
    ok = np.ones(n, bool) if valid is None else valid.astype(bool)
    sets = lambda w: [[[int(e) for e in np.flatnonzero(w[i, t])] for t in range(T)] for i in range(n)]
    before, after = [sets(w[0]) for w in facts['cw']], [sets(w[1]) for w in facts['cw']]
    batches.append([dict(valid=bool(ok[i]), y0=int(facts['y'][0, i]), ym=int(facts['y'][1, i]), c0=int(facts['c'][0, i]),
                         cm=int(facts['c'][1, i]), l0=int(facts['l'][0, i]), lm=int(facts['l'][1, i]),
                         before={k: before[j][i] for j, k in enumerate(names)},
                         after={k: after[j][i] for j, k in enumerate(names)}) for i in range(n)])
    out = [np.stack([l0, lm, y0, ym], 1)] + [np.asarray(w[k]).reshape(n, -1) * 4 for w in (cw0, cwm) for k in names]
    given = [np.stack([facts['l'][0], facts['l'][1], facts['y'][0], facts['y'][1]], 1)] + [
        w[s].reshape(n, -1) * 4 for s in (0, 1) for w in facts['cw']]
    h.emit(op='masked', valid=ok.tolist(), out=ints(np.concatenate(out, 1)), given=ints(np.concatenate(given, 1)))
  h.emit(op='count', batches=batches, routers=names, images=int(state.num_images), changes=int(state.num_changes),
         correct=ints(state.num_correct), loss=ints(state.sum_loss), tol=0, tokens=T,
         overlap=[fixed(state.sum_iou_experts[k], 5040) for k in names])


def weights(c):
  g, s, e, k = c['groups'], c['items'], c['experts'], min(c['chosen'], c['experts'])
  half = {name: h.rng.random() < .3 for name in ('einsum', 'indices', 'items')}

  @jax.jit
  def both(logits):
    gates = jax.nn.softmax(logits)
    out = {}
    for name in half:
      if name == 'items':
        d = jax.vmap(lambda x: moe.get_top_items_per_expert_dispatcher(
            x, name='einsum', capacity=min(c['capacity'], s), capacity_multiple_of=None))(gates)[0]
      else:
        d = jax.vmap(lambda x: moe.get_top_experts_per_item_dispatcher(
            x, name=name, num_selected_experts=k, batch_priority=c['bpr'], capacity=c['capacity'], capacity_multiple_of=None))(gates)
      if half[name]:
        d = moe.Bfloat16Dispatcher(d)
      listed = restore.get_combine_weights({'intermediates': {'m': {'__call__': ((d, {}),)}}})['m/__call__']
      rows = d.dispatch(jnp.zeros((g, s, 1))).shape[1]
      combined = d.combine(jnp.broadcast_to(jnp.eye(e)[:, None], (e, rows, e)))
      out[name] = listed, combined.astype(jnp.float32).reshape(-1, e)
    return out

  for _ in range(4):
    for name, (listed, combined) in both(jnp.asarray(h.np.randn(g, s, e) * 1.5, jnp.float32)).items():
      h.emit(op='weights', kind=name, case=c, listed=fixed(listed, 100), combined=fixed(combined, 100))


def run(c, num):
  wd = os.path.join(h.work, f'a{h.shard}_{num}')
  os.makedirs(wd)
  B, N, E, C, layers = 4, 3, 3, 4, [0, 1]
  gs = h.rng.choice([4, 8, 16])
  router = {} if c['router'] == 'none' else dict(
      name='NoisyTopItemsPerExpertRouter' if c['router'] == 'items' else 'NoisyTopExpertsPerItemRouter',
      dispatcher=dict(name='einsum' if c['router'] == 'items' else c['router'], capacity_multiple_of=None,
                      capacity_factor=h.rng.choice([.7, 1., 2.])))
  if c['router'] in ('einsum', 'indices'):
    router['num_selected_experts'] = h.rng.choice([1, 2])
    router['dispatcher']['batch_priority'] = h.rng.random() < .5
  if router and c['bf16']:
    router['dispatcher']['bfloat16'] = True
  encoder = dict(num_layers=2, mlp_dim=4, num_heads=1)
  if router:
    encoder['moe'] = dict(layers=layers, num_experts=E, group_size=gs, split_rngs=True, router=router)
  kw = dict(num_classes=C, patch_size=(2, 2), hidden_size=4, encoder=encoder, classifier='gap')
  model = vit_moe.VisionTransformerMoe(deterministic=True, **kw)
  shapes = jax.eval_shape(model.init, jax.random.PRNGKey(0), jnp.zeros((B, 4, 4, 3)))
  params = jax.tree_util.tree_map(lambda v: jnp.asarray(h.np.randn(*v.shape), v.dtype), shapes['params'])
  prefix = os.path.join(wd, 'ckpt')
  checkpoints.save_checkpoint_partitioned(prefix=prefix, tree=params, num_shards=1).get()
  x = h.np.randn(N, B, 4, 4, 3).astype('float32')
  y = np.eye(C, dtype='float32')[h.np.randint(0, C, (N, B))]
  last = h.rng.randint(0, B)
  valid = np.ones((N, B), bool)
  valid[-1, last:] = False
  x[-1, last:] = 0
  y[-1, last:] = 0
  eps = h.rng.choice([.5, 1., .125])
  cfg = ml_collections.ConfigDict(dict(
      dataset=dict(batch_size=B, prefetch_device=h.rng.choice([None, 1, 2])), restore={'from': 'checkpoint', 'prefix': prefix},
      num_updates=c['updates'], max_epsilon=eps, model=dict(name='VisionTransformerMoe', **kw), params_axis_resources=[],
      extra_rng_keys=h.rng.choice([(), ('dropout', 'gating')]), num_expert_partitions=h.rng.choice([1, 2]),
      loss=dict(name=c['loss'], attack_auxiliary_loss=c['aux']), store_examples=dict(transfer_every_steps=c['store'])))
  scalars = []

  class Writer:
    def write_scalars(self, step, s):
      scalars.append((step, {k: float(v) for k, v in s.items()}))

  ds = input_pipeline.TfDatasetIterator(tf.data.Dataset.from_tensor_slices(
      {'image': x, 'labels': y, input_pipeline.VALID_KEY: valid}), checkpoint=False)
  with mock.patch.object(lib, 'get_dataset', return_value=ds), mock.patch.object(
      lib.input_pipeline, 'get_data_num_examples', return_value=int(valid.sum())):
    lib.run_pgd_attack(cfg, wd, None, Writer())
  st = dict(np.load(os.path.join(wd, 'pgd_state.npz')))
  ex = dict(np.load(os.path.join(wd, 'examples-000-of-001')))
  names = sorted(k[len('sum_iou_experts/'):] for k in st if k.startswith('sum_iou'))
  stored = sorted(k[5:] for k in ex if k.startswith('cw_0/'))
  want = ['Encoder/encoderblock_%d/Moe/Router/__call__' % i for i in layers] if router else []
  assert names == stored == want, (names, stored, want)

  @jax.jit
  def ref(images, labels):
    (logits, metrics), inter = model.apply({'params': params}, images, capture_intermediates=restore.router_filter)
    routed = {}
    for k in names:
      node = inter['intermediates']
      for part in k.split('/'):
        node = node[part]
      d = node[0][0]
      groups = B * 4 // gs
      rows = d.dispatch(jnp.zeros((groups, gs, 1))).shape[1]
      w = d.combine(jnp.broadcast_to(jnp.eye(E)[:, None], (E, rows, E)))
      routed[k] = w.reshape(B, 4, E) > 0
    loss = (optax.softmax_cross_entropy(logits, labels) if c['loss'] == 'softmax_xent'
            else optax.sigmoid_binary_cross_entropy(logits, labels).sum(-1))
    return jnp.argmax(logits, -1), loss + (jnp.mean(metrics['auxiliary_loss']) if c['aux'] else 0.), routed

  flat = lambda a: a.reshape((-1,) + a.shape[2:])
  order = ex['x_0'].shape == flat(x).shape and (ex['x_0'] == flat(x)).all() and (ex['valid'] == flat(valid)).all() and (ex['y'] == flat(y)).all()
  batches = []
  for b in range(N):
    sl = slice(b * B, (b + 1) * B)
    r0, l0, w0 = ref(ex['x_0'][sl], y[b])
    rm, lm, wm = ref(ex['x_m'][sl], y[b])
    rows = []
    for i in range(B):
      j = b * B + i
      sets = lambda w: [[int(e) for e in np.flatnonzero(t > 0)] for t in w]
      rows.append(dict(valid=bool(valid[b, i]), y0=int(ex['y_0'][j]), ym=int(ex['y_m'][j]), c0=int(y[b, i, int(ex['y_0'][j])]),
                       cm=int(y[b, i, int(ex['y_m'][j])]), l0=fixed(ex['l_0'][j], 1000), lm=fixed(ex['l_m'][j], 1000),
                       ref0=int(r0[i]), refm=int(rm[i]), lref0=fixed(l0[i], 1000), lrefm=fixed(lm[i], 1000),
                       before={k: sets(ex['cw_0/' + k][j]) for k in names}, after={k: sets(ex['cw_m/' + k][j]) for k in names},
                       refBefore={k: sets(np.asarray(w0[k][i])) for k in names},
                       refAfter={k: sets(np.asarray(wm[k][i])) for k in names}))
    batches.append(rows)
  n = int(st['num_images'])
  h.emit(op='run', case=c, batches=batches, routers=names, images=n, changes=int(st['num_changes']), correct=ints(st['num_correct']),
         loss=fixed(st['sum_loss'], 1000), tol=20, tokens=4, overlap=[fixed(st['sum_iou_experts/' + k], 5040) for k in names],
         moved=fixed(np.abs(ex['x_m'] - ex['x_0']).reshape(N * B, -1).max(1), 100000), radius=fixed(eps, 100000), orderKept=bool(order),
         scalars=[dict(error=fixed(s['error'], 10000), loss=fixed(s['loss'], 1000), images=n) for _, s in scalars],
         at=[int(t) for t, _ in scalars], updates=c['updates'], shift=fixed(scalars[1][1]['prediction_changes'], 10000),
         rerouted=[fixed(scalars[1][1]['routing_changes/' + k], 10000) for k in names])
  shutil.rmtree(wd)


cases = list(h.cases)
h.rng.shuffle(cases)
part = lambda op: [c for c in cases if c['op'] == op]
n = 8 if h.thorough else 1
for c in part('pgd')[:15 * n]:
  pgd(c)
for c in part('train')[:8 * n]:
  train(c)
for c in part('count')[:5 * n]:
  count(c)
for c in part('weights')[:5 * n]:
  weights(c)
for i, c in enumerate(part('run')[:2 * n]):
  run(c, i)
h.close()
