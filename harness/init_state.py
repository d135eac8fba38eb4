"""Real starts of training states in many situations."""
import os
import shutil

from common import H, attempt
import flax.linen as nn
import flax.serialization
import flax.traverse_util
import jax
import jax.numpy as jnp
import numpy as np
import orbax.checkpoint
from vmoe import checkpoints
from vmoe import partitioning
from vmoe.train import trainer

h = H()
E = 4
MESHES = {1: (1, 1), 2: (2, 1), 3: (1, 2), 4: (2, 2)}
RULES = [
    [],
    [('Moe', ('expert',))],
    [('kernel', (None, 'x')), ('Moe', ('expert',))],
    [('params', ()), ('Moe', ('expert',)), ('Dense_0', ('x',))],
    [('rngs', ()), ('Moe', (('expert', 'x'),)), ('bias', ('expert',))],
    [('bias', ('x',)), ('Dense_1', ('expert',)), ('opt_state', ()), ('Moe', ('expert', None, 'x'))],
]
OPTS = {'sgd': {'name': 'sgd'}, 'momentum': {'name': 'sgd', 'momentum': .9}, 'adam': {'name': 'adam'}}


class Moe(nn.Module):
  @nn.compact
  def __call__(self, x):
    w = self.param('kernel', nn.initializers.normal(1.), (E, 4, 4))
    return jnp.einsum('bd,edf->bf', x, w)


class Model(nn.Module):
  @nn.compact
  def __call__(self, x):
    y = nn.Dense(4, bias_init=nn.initializers.normal(1.))(x)
    y = Moe()(y)
    y = y + jax.random.normal(self.make_rng('noise'), y.shape)
    return nn.Dense(4)(y)


def mesh_of(n):
  a, b = MESHES[n]
  return jax.sharding.Mesh(np.array(jax.devices()[:a * b]).reshape(a, b), ('expert', 'x'))


def flat(tree):
  return flax.traverse_util.flatten_dict(flax.serialization.to_state_dict(tree), sep='/', keep_empty_nodes=True)


def leaves(tree):
  return {k: v for k, v in flat(tree).items() if hasattr(v, 'dtype')}


def init_fn(opt, seed, keys=('noise', 'dropout'), sharding=None):
  return trainer.make_create_train_state_fn(
      model=Model(), optimizer_config=dict(OPTS[opt], learning_rate=.1),
      input_shape_dtypes=(jax.ShapeDtypeStruct((4, 4), jnp.float32, sharding=sharding),),
      train_steps=12, seed=seed, extra_rng_keys=keys)


fresh_cache = {}


def fresh(opt, seed, keys=('noise', 'dropout')):
  """Flat values of a fresh state, made on one device."""
  k = (opt, seed, keys)
  if k not in fresh_cache:
    one = jax.sharding.Mesh(np.array(jax.devices()[:1]).reshape(1, 1), ('expert', 'x'))
    with one:
      s = jax.sharding.NamedSharding(one, jax.sharding.PartitionSpec())
      state = jax.jit(init_fn(opt, seed, keys, s))()
    fresh_cache[k] = {n: np.asarray(v) for n, v in leaves(state).items()}
  return fresh_cache[k]


def made_up(shapes, salt):
  """A state like this one with other values."""
  r = np.random.RandomState(salt % 2**31)
  d = {k: (r.randint(1, 10**6, size=v.shape) if np.issubdtype(v.dtype, np.integer)
           else r.normal(size=v.shape)).astype(v.dtype) for k, v in shapes.items()}
  if 'step' in d:
    d['step'] = np.asarray(salt % 1000, d['step'].dtype)
  return d


def rebuild(like, values):
  d = {k: values.get(k, v) for k, v in flat(like).items()}
  return flax.serialization.from_state_dict(like, flax.traverse_util.unflatten_dict(d, sep='/'))


def close(a, b):
  a, b = np.asarray(a), np.asarray(b)
  return a.shape == b.shape and a.dtype == b.dtype and bool(np.allclose(a, b, atol=1e-5, rtol=0))


def fill_disk(c, wd, like, shapes):
  vals = {}
  m = trainer.create_checkpoint_manager(workdir=wd, every_steps=1)
  for s in sorted(c['disk']):
    vals[s] = made_up(shapes, s + 1000 * h.rng.randint(1, 1000))
    vals[s]['step'] = np.asarray(s, vals[s]['step'].dtype)
    state = rebuild(like, {k: jnp.asarray(v) for k, v in vals[s].items()})
    m.save(s, args=orbax.checkpoint.args.Composite(
        state=orbax.checkpoint.args.PyTreeSave(state),
        dataset_iterator=orbax.checkpoint.args.JsonSave({'last_seen_index': 10 * s})))
    m.wait_until_finished()
  m.close()
  d = os.path.join(wd, 'ckpt')
  if c['torn'] == 'later':
    os.makedirs(os.path.join(d, '17.orbax-checkpoint-tmp-1', 'state.orbax-checkpoint-tmp-2'))
  elif c['torn'] == 'unnamed':
    os.makedirs(os.path.join(d, 'notes'))
  return vals


def init_config(c, wd, shapes):
  """(kwargs, values that it gives to leaves, covered leaves)."""
  params = {k: v for k, v in shapes.items() if k.startswith('params/')}
  if c['cfg'] == 'none':
    return None, {}
  src = made_up(shapes, 77 + h.rng.randint(0, 10**6))
  loose = dict(raise_if_target_unmatched=False)
  if c['cfg'] == 'all':
    rules, vals = [(r'^params/(.*)$', r'params/\1'), ('.*', None)], {k: src[k] for k in params}
  elif c['cfg'] == 'some':
    rules = [(r'^params/(Dense_0/.*)$', r'params/\1'), ('.*', '')]
    vals = {k: src[k] for k in params if 'Dense_0' in k}
  elif c['cfg'] == 'up':
    one = h.np.normal(size=(4, 4)).astype('float32')
    src['params/Mlp/kernel'] = one
    rules = [(r'^params/Mlp/kernel$', 'params/Moe_0/kernel', 'expand_tile', 0, E), (r'^params/(Dense_1/.*)$', r'params/\1'),
             ('.*', None)]
    vals = {k: src[k] for k in params if 'Dense_1' in k}
    vals['params/Moe_0/kernel'] = np.tile(one[None], (E, 1, 1))
  elif c['cfg'] == 'strict':
    rules, vals = [(r'^params/(Dense_0/.*)$', r'params/\1'), ('.*', None)], {k: src[k] for k in params if 'Dense_0' in k}
    loose = dict(h.rng.choice([{}, dict(raise_if_target_unmatched=True)]))
  elif c['cfg'] == 'vit':
    path = os.path.join(wd, 'vit.npz')
    with open(path, 'wb') as fp:
      np.savez(fp, **{k[7:]: src[k] for k in params})
    rules = [(r'^(.*)/kernel$', r'params/\1/kernel'), ('.*', None)]
    return (dict(name='initialize_from_vit', filepath=path, rules=rules, **loose),
            {k: src[k] for k in params if k.endswith('kernel')})
  else:
    return dict(name='initialize_from_nowhere', prefix='x', rules=[]), {}
  path = os.path.join(wd, 'other')
  tree = flax.traverse_util.unflatten_dict({k: jax.device_put(v, jax.sharding.NamedSharding(mesh_of(1), jax.sharding.PartitionSpec()))
                                            for k, v in src.items()}, sep='/')
  checkpoints.save_checkpoint_partitioned(prefix=path, tree=tree, num_shards=1).get()
  return dict(name='initialize_from_vmoe', prefix=path, rules=rules, **loose), vals


def one(c, n):
  wd = os.path.join(h.work, f'i{h.shard}_{n}')
  os.makedirs(wd)
  seed = h.rng.randint(0, 2)
  mesh = mesh_of(c['mesh'])
  pairs = RULES[c['rules']]
  regexes = [(rf'(.*/)?{k}(_\d+)?(/.*)?', spec) for k, spec in pairs]
  rule_specs = [jax.sharding.PartitionSpec(*s) for _, s in pairs] + [jax.sharding.PartitionSpec()]
  fn = init_fn(c['opt'], seed, sharding=jax.sharding.NamedSharding(mesh, jax.sharding.PartitionSpec(('expert', 'x'))))
  with mesh:
    shape_tree = jax.eval_shape(fn)
  shapes = leaves(shape_tree)
  base = fresh(c['opt'], seed)
  sources = {k: {'fresh': v} for k, v in base.items()}
  given, kept, last = {}, {}, None

  def path(k):
    return [{'Moe_0': 'Moe'}.get(p, p) for p in k.split('/')]

  def spec_of(k):
    for (name, _), s in zip(pairs, rule_specs):
      if name in path(k):
        return s
    return rule_specs[-1]

  vals = {}
  if c['call'] == 'start':
    for s, d in fill_disk(c, wd, shape_tree, shapes).items():
      for k in shapes:
        sources[k][f'ckpt{s}'] = d[k]
    kw, vals = init_config(c, wd, shapes)
    for k, v in vals.items():
      sources[k]['init'] = v
    m = trainer.create_checkpoint_manager(workdir=wd, every_steps=1)
    use = h.rng.random() < .5

    def start():
      args = dict(ckpt_manager=m, initialize_fn=fn, axis_resources_regexes=regexes, initialization_kwargs=kw)
      if use:
        return trainer.restore_or_create_train_state(mesh=mesh, **args)
      with mesh:
        return trainer.restore_or_create_train_state(**args)

    got, err = attempt(start)
    m.close()
    if not err:
      got, last = got
  else:
    other = made_up(shapes, 5 + h.rng.randint(0, 10**6))
    tree = {}
    for k, v in shapes.items():
      s = jax.sharding.NamedSharding(mesh, spec_of(k))
      if h.rng.random() < .5:
        own = jax.sharding.NamedSharding(mesh, jax.sharding.PartitionSpec(*[h.rng.choice([None, 'x']) if i == 0 and v.shape[0] % 2 == 0 else None for i in range(len(v.shape))]))
        given[k] = tree[k] = jax.device_put(other[k], own)
        kept[k] = own
        sources[k]['given'] = other[k]
      else:
        tree[k] = jax.ShapeDtypeStruct(v.shape, v.dtype, sharding=s)
    got, err = attempt(lambda: trainer.create_or_reuse_train_state(
        train_state=rebuild(shape_tree, tree), initialize_fn=fn, mesh=mesh))
  out, same = [], False
  if not err:
    same = jax.tree_util.tree_structure(got) == jax.tree_util.tree_structure(shape_tree)
    found = leaves(got)
    same = same and set(found) == set(shapes)
    for k in sorted(shapes):
      v = found.get(k)
      arr = isinstance(v, jax.Array)
      out.append(dict(
          path=path(k), covered=k in vals, given=k in given,
          fits=arr and v.shape == shapes[k].shape and v.dtype == shapes[k].dtype,
          shows=[n for n, x in sources[k].items() if arr and close(v, x)],
          kept=arr and k in kept and bool(v.sharding.is_equivalent_to(kept[k], v.ndim)),
          layouts=[arr and len(s) <= v.ndim and bool(v.sharding.is_equivalent_to(jax.sharding.NamedSharding(mesh, s), v.ndim))
                   for s in rule_specs]))
  h.emit(op='state', call=c['call'], disk=c['disk'], cfg=c['cfg'], rules=[k for k, _ in pairs], leaves=out, rejected=bool(err),
         error=err, sameTree=bool(same), last=-1 if last is None else int(last), mesh=c['mesh'], opt=c['opt'], torn=c['torn'])
  shutil.rmtree(wd)


def seeds():
  for _ in range(2):
    a, b = h.rng.choice([(0, 0), (1, 1), (0, 1), (1, 2), (3, 11)])
    keys = h.rng.choice([('noise', 'dropout'), ('noise',), ('mixup', 'noise', 'dropout'), ('noise', 'gating', 'a', 'b')])
    x = fresh('momentum', a, keys)
    mesh = mesh_of(4)
    with mesh:
      y = leaves(jax.jit(init_fn('momentum', b, keys, jax.sharding.NamedSharding(mesh, jax.sharding.PartitionSpec('x'))))())
    names = [k for k in x if k.startswith('rngs/') or (k.startswith('params/') and not k.endswith('Dense_1/bias'))]
    agree = {k: close(x[k], y[k]) for k in names}
    h.emit(op='fresh', seeds=[a, b], same=all(agree.values()) if a == b else any(agree.values()), zero=int(x['step']), keys=list(keys),
           streams=[k[5:] for k in x if k.startswith('rngs/')],
           prints=[str(np.asarray(v).tolist()) for k, v in x.items() if k.startswith('rngs/')])


cases = list(h.cases)
h.rng.shuffle(cases)
starts = [c for c in cases if c['call'] == 'start' and not c['disk']]
resumes = [c for c in cases if c['disk']]
reuses = [c for c in cases if c['call'] == 'reuse']
n = 12 if h.thorough else 1
for i, c in enumerate(starts[:8 * n] + resumes[:4 * n] + reuses[:4 * n]):
  one(c, i)
seeds()
h.close()
