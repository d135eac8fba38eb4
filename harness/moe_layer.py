"""MoE layers, encoders and models."""
from common import H, attempt, fixed, ints
import flax
import jax
import jax.numpy as jnp
import numpy as np
import tag_router
from vmoe.nn import vit_moe

h = H()
flat = lambda t: flax.traverse_util.flatten_dict(t, sep='/')
tree = lambda p: {'params': flax.traverse_util.unflatten_dict(p, sep='/')}

# The layer alone, with a prescribed routing and experts x -> a x + b.
todo = list(h.cases)
h.rng.shuffle(todo)
bad = [c for c in todo if c['N'] * c['L'] % c['size']]
good = [c for c in todo if c['N'] * c['L'] % c['size'] == 0]
for c in good[:400 if h.thorough else 50] + bad[:60 if h.thorough else 10]:
  N, L, size, E, C = c['N'], c['L'], c['size'], c['E'], c['C']
  G = max(N * L // size, 1)
  x = h.np.randint(1, 40, (N, L, 2)) * 16
  w = np.zeros((G, size, E, C), np.float32)
  route = []
  for g in range(G):
    for e in range(E):
      items = h.np.permutation(size)[:C]
      for slot, s in enumerate(items):
        if h.rng.random() < .7:
          w[g, s, e, slot] = h.rng.randint(1, 3)
          route.append([g + 1, int(s) + 1, e + 1, int(w[g, s, e, slot])])
  a = h.np.randint(1, 6, E)
  b = h.np.randint(-9, 9, E)
  tag_router.state.clear()
  tag_router.state['weights'] = w
  layer = vit_moe.MlpMoeBlock(
      mlp_dim=2, num_experts=E, group_size=size, deterministic=True,
      router=dict(name='tag_router.TagRouter'))
  eye = np.broadcast_to(np.eye(2, dtype=np.float32), (E, 2, 2))
  params = {'Mlp': {'Dense_0': {'kernel': eye, 'bias': np.zeros((E, 2), np.float32)},
                    'Dense_1': {'kernel': eye * a[:, None, None].astype(np.float32),
                                'bias': np.stack([b, b], 1).astype(np.float32)}}}
  got, err = attempt(lambda: jax.jit(lambda p, x: layer.apply(p, x)[0])(
      {'params': params}, jnp.asarray(x, jnp.float32)))
  out = np.zeros((N, L, 2)) if got is None else np.asarray(got)
  h.emit(op='layer', x=x.reshape(-1, 2).tolist(), size=size, route=route, a=a.tolist(),
         b=b.tolist(), rejected=err != '', shape=list(out.shape), want=[N, L, 2],
         out=ints(np.rint(out.reshape(-1, 2) * 1000) / 1000))

# Experts have their own initial parameters and dropout when asked.
tag_router.state.clear()
for split in (True, False, ('params',), ('dropout',)):
  layer = vit_moe.MlpMoeBlock(
      mlp_dim=4, num_experts=3, group_size=2, dropout_rate=.5, split_rngs=split,
      router=dict(name='tag_router.TagRouter'))
  x = jnp.ones((2, 2, 3))
  v = layer.init({'params': jax.random.PRNGKey(h.seed), 'dropout': jax.random.PRNGKey(1)}, x)
  k = np.asarray(v['params']['Mlp']['Dense_0']['kernel'])
  h.emit(op='flag', what='ExpertInit', got=bool((k[0] != k[1]).all() and (k[1] != k[2]).all()),
         want=split is True or (split is not False and 'params' in split))
  h.emit(op='flag', what='ExpertInitSame', got=bool((k[0] == k[1]).all() and (k[1] == k[2]).all()),
         want=not (split is True or (split is not False and 'params' in split)))

# Deterministic flag and call-style router names.
for block_det in (False, True):
  for router_det in (None, False, True):
    router = dict(name='tag_router.TagRouter(loss=3.0)')
    if router_det is not None:
      router['deterministic'] = router_det
    layer = vit_moe.MlpMoeBlock(mlp_dim=4, num_experts=2, group_size=2,
                                deterministic=block_det, router=router)
    (_, m), _ = layer.init_with_output(jax.random.PRNGKey(0), jnp.ones((2, 2, 3)))
    h.emit(op='flag', what='RouterDeterministic', got=tag_router.state['deterministic'],
           want=block_det if router_det is None else router_det)
    h.emit(op='flag', what='RouterArguments', got=fixed(m['auxiliary_loss'][0], 10), want=30)


# Encoders: which layers are MoE layers; sum of losses.
def model(num_layers, layers, group, classifier='token', pos=None, experts=2, k=1, cf=2., det=True,
          name='NoisyTopExpertsPerItemRouter', cls=vit_moe.VisionTransformerMoe, **kw):
  enc = dict(num_layers=num_layers, mlp_dim=8, num_heads=2, moe=dict(
      layers=layers, num_experts=experts, group_size=group, split_rngs=True,
      router=dict(name=name, num_selected_experts=k, dispatcher=dict(
          name='einsum', capacity_factor=cf, batch_priority=False,
          capacity_multiple_of=None))))
  if pos:
    enc['position_emb'] = pos
  return cls(num_classes=4, patch_size=(2, 2), hidden_size=8, deterministic=det,
             classifier=classifier, head_kernel_zero_init=False, encoder=enc, **kw)


def params_of(mod, x):
  shapes = flat(jax.eval_shape(mod.init, jax.random.PRNGKey(0), x)['params'])
  return {k: jnp.asarray(h.np.randn(*v.shape) * .5, v.dtype) for k, v in shapes.items()}


for n, layers in ([(3, (1,)), (3, ()), (4, (0, 3)), (2, (0, 1))] if not h.thorough else
                  [(n, tuple(i for i in range(n) if m >> i & 1)) for n in (1, 2, 3, 4)
                   for m in range(2**n)]):
  mod = model(n, layers, 5)
  x = jnp.asarray(h.np.randn(3, 4, 4, 3), jnp.float32)
  p = params_of(mod, x)
  blocks = {k.split('/')[1]: set() for k in p if 'encoderblock_' in k}
  for k in p:
    if 'encoderblock_' in k:
      blocks[k.split('/')[1]].add(k.split('/')[2])
  num = lambda b: int(b.split('_')[1])
  _, met = jax.jit(mod.apply)(tree(p), x)
  total = np.asarray(met['auxiliary_loss'])
  per = {num(b): m for b, m in met.items() if b != 'auxiliary_loss'}
  losses = [fixed(np.asarray(m['auxiliary_loss']), 10000) for m in per.values()]
  h.emit(op='layers', layers=list(layers), n=n, moe=[num(b) for b, s in blocks.items() if 'Moe' in s],
         dense=[num(b) for b, s in blocks.items() if 'Mlp' in s], metrics=list(per),
         losses=losses, total=fixed(np.broadcast_to(total, (3,) if not losses else total.shape), 10000))

# With no contention the group size, and the other images, do not matter.
B = 3
for classifier, pos, k in (('token', None, 1), ('gap', dict(name='sincos2d'), 2),
                           ('map', dict(name='none'), 1), ('token', dict(name='none'), 2),
                           ('0', dict(name='none'), 2)):
  x = jnp.asarray(h.np.randn(B, 4, 4, 3), jnp.float32)
  tokens = 4 + (classifier == 'token')
  mods = [model(2, (1,), gs, classifier, pos, experts=3, k=k, cf=3.)
          for gs in ((tokens, B * tokens, 1) if k == 1 else (tokens, B * tokens))]
  p = params_of(mods[0], x)
  fs = [jax.jit(lambda p, x, m=m: m.apply(p, x)[0]) for m in mods]
  outs = [f(tree(p), x) for f in fs]
  for o in outs[1:]:
    h.emit(op='equal', what='GroupSizeMatters-' + classifier, a=fixed(outs[0], 10000),
           b=fixed(o, 10000), tol=10)
  y = x.at[1:].set(jnp.asarray(h.np.randn(B - 1, 4, 4, 3), jnp.float32))
  o = fs[1](tree(p), y)
  h.emit(op='equal', what='ImagesMix-' + classifier, a=fixed(outs[0][:1], 10000),
         b=fixed(o[:1], 10000), tol=10)
  h.emit(op='differ', what='ImageIgnored-' + classifier, a=fixed(outs[0][1:], 10000),
         b=fixed(o[1:], 10000), tol=50)
  # Permuting the patches matters exactly when there are position embeddings.
  perm = x.reshape(B, 2, 2, 2, 2, 3)[:, ::-1].reshape(x.shape)
  o = fs[0](tree(p), perm)
  h.emit(op='equal' if pos == dict(name='none') and classifier != '0' else 'differ',
         what='Positions-' + classifier, a=fixed(outs[0], 10000), b=fixed(o, 10000), tol=30)
  for bad in (7,):
    h.emit(op='reject', what='group size', rejected=attempt(
        jax.eval_shape, model(2, (1,), bad, classifier, pos).init, jax.random.PRNGKey(0), x)[1] != '')

# Two-dimensional position embeddings.
for c, hh, ww, cls, temp in ((8, 2, 3, 0, None), (12, 3, 2, 1, 100.), (8, 4, 4, 1, None), (8, 1, 5, 0, 50.)):
  emb = dict(name='sincos2d', h=hh, w=ww)
  if temp:
    emb['temperature'] = temp
  enc = vit_moe.EncoderMoe(num_layers=1, mlp_dim=4, num_heads=2, position_emb=emb)
  for x in (np.zeros((2, hh * ww + cls, c)), h.np.randint(-8, 8, (2, hh * ww + cls, c))):
    pe = np.asarray(enc.add_position_emb(jnp.asarray(x, jnp.float32)), np.float64) - x
    for i in range(2):
      h.emit(op='pos', c=c, h=hh, w=ww, cls=cls, pe=fixed(pe[i], 10000),
             t=int(10000 / (temp or 10000.)))
for what, emb, c, n in (('length', dict(name='sincos2d', h=2, w=2), 8, 6),
                        ('width', dict(name='sincos2d', h=2, w=2), 6, 4),
                        ('name', dict(name='foo'), 8, 4)):
  enc = vit_moe.EncoderMoe(num_layers=1, mlp_dim=4, num_heads=2, position_emb=emb)
  h.emit(op='reject', what=what, rejected=attempt(
      enc.add_position_emb, jnp.zeros((1, n, c)))[1] == 'ValueError')
h.emit(op='reject', what='classifier', rejected=attempt(
    jax.eval_shape, model(1, (), 5, 'foo').init, jax.random.PRNGKey(0), jnp.zeros((1, 4, 4, 3)))[1] == 'ValueError')
h.close()
