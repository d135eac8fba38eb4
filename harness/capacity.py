"""Capacity through the public function, the dispatchers and the routers."""
import functools
import jax
import jax.numpy as jnp
import numpy as np
from common import H, attempt
from vmoe import moe
from vmoe.nn import routing
from vmoe.projects.soft_moe import router as soft

h = H()
DEN = 8
NUM = 24
for t, e, mode, mult in h.cases:
  row = []
  for n in range(1, NUM + 1):
    got, err = attempt(moe.compute_capacity, t, e, n / DEN, ceil_or_round=mode,
                       multiple_of=mult or (None if (t + n) % 2 else 0))
    row.append(-1 if err == 'ValueError' else -2 if err else int(got))
  h.emit(op='row', via='function', tokens=t, sel=1, experts=e, mode=mode,
         mult=mult, den=DEN, got=row)
# Large counts (as in real configurations).
for t, e, k in [(4096 * 8, 32, 2), (392, 8, 4), (25088, 32, 1), (12544, 128, 8),
                (999, 7, 3), (50176, 64, 2)]:
  for mode in ('ceil', 'round'):
    for mult in (0, 1, 4, 128):
      row = [int(moe.compute_capacity(t * k, e, n / DEN, mode, mult))
             for n in range(1, NUM + 1)]
      h.emit(op='row', via='function', tokens=t, sel=k, experts=e, mode=mode,
             mult=mult, den=DEN, got=row)


def slots(fn, S, E, G=1):
  """Buffer length per group seen by an expert."""
  def run(gates):
    d = jax.vmap(fn)(gates)
    d = d[0] if isinstance(d, tuple) else d
    return d.dispatch(jnp.zeros((G, S, 1)))
  out, err = attempt(jax.eval_shape, run, jnp.zeros((G, S, E)))
  if err:
    return -1 if err == 'ValueError' else -2
  return out.shape[1] // G if out.shape[0] == E else -3


rng = h.rng
for _ in range(400 if h.thorough else 80):
  S, E = rng.randint(1, 30), rng.randint(1, 6)
  K = rng.randint(1, E)
  mode, mult = rng.choice(['ceil', 'round']), rng.choice([-1, 1, 2, 3, 4])
  nums = rng.sample(range(1, NUM + 1), 3)
  m = mult if mult >= 0 else None
  for n in nums:
    name = rng.choice(['einsum', 'indices'])
    h.emit(op='default', via='token-choice', tokens=S, sel=K, experts=E,
           mode=mode, mult=mult, num=n, den=DEN, got=slots(functools.partial(
               moe.get_top_experts_per_item_dispatcher, name=name,
               num_selected_experts=K, batch_priority=rng.random() < .5,
               capacity_factor=n / DEN, capacity_ceil_or_round=mode,
               capacity_multiple_of=m), S, E))
    # Experts cannot take more items than there are.
    if n * S // (DEN * E) + 1 + max(mult, 1) > S:
      continue
    h.emit(op='default', via='expert-choice', tokens=S, sel=1, experts=E,
           mode=mode, mult=mult, num=n, den=DEN, got=slots(functools.partial(
               moe.get_top_items_per_expert_dispatcher, name='einsum',
               capacity_factor=n / DEN, capacity_ceil_or_round=mode,
               capacity_multiple_of=m), S, E))
  # Documented defaults: rounding up, to a multiple of four.
  n = rng.randint(1, NUM)
  h.emit(op='default', via='token-choice', tokens=S, sel=K, experts=E,
         mode='ceil', mult=4, num=n, den=DEN, got=slots(functools.partial(
             moe.get_top_experts_per_item_dispatcher, name='einsum',
             num_selected_experts=K, batch_priority=False,
             capacity_factor=n / DEN), S, E))
  C = rng.randint(1, 40)
  for name in ('einsum', 'indices'):
    h.emit(op='given', via='token-choice', capacity=C, got=slots(
        functools.partial(moe.get_top_experts_per_item_dispatcher, name=name,
                          num_selected_experts=K, batch_priority=False,
                          capacity=C), S, E))
  C = rng.randint(1, S)
  h.emit(op='given', via='expert-choice', capacity=C, got=slots(
      functools.partial(moe.get_top_items_per_expert_dispatcher, name='einsum',
                        capacity=C), S, E))

def rejected(fn, kw):
  return attempt(jax.eval_shape, functools.partial(fn, **kw),
                 jnp.zeros((4, 2)))[1] == 'ValueError'
for name in ('einsum', 'indices'):
  base = dict(name=name, num_selected_experts=1, batch_priority=False)
  for kw in (dict(), dict(capacity=2, capacity_factor=1.0)):
    h.emit(op='reject', via='token-choice', rejected=rejected(
        moe.get_top_experts_per_item_dispatcher, {**base, **kw}))
for kw in (dict(), dict(capacity=2, capacity_factor=1.0)):
  h.emit(op='reject', via='expert-choice', rejected=rejected(
      moe.get_top_items_per_expert_dispatcher, dict(name='einsum', **kw)))

# Through the routers.
def router_slots(router, G, S, H):
  def run(x):
    (d, _), _ = router.init_with_output(jax.random.PRNGKey(0), x)
    return d.dispatch(jnp.zeros((G, S, 1)))
  out, err = attempt(jax.eval_shape, run, jnp.zeros((G, S, H)))
  return (-1 if err == 'ValueError' else -2) if err else out.shape[1] // G

for _ in range(60 if h.thorough else 15):
  G, S, E = rng.randint(1, 3), rng.randint(4, 30), rng.randint(1, 4)
  K, n = rng.randint(1, E), rng.randint(4, NUM)
  mode, mult = rng.choice(['ceil', 'round']), rng.choice([1, 2, 4])
  h.emit(op='default', via='token-router', tokens=S, sel=K, experts=E,
         mode=mode, mult=mult, num=n, den=DEN, got=router_slots(
             routing.NoisyTopExpertsPerItemRouter(
                 num_experts=E, num_selected_experts=K, deterministic=True,
                 dispatcher=dict(
                     name='einsum', batch_priority=True, capacity_factor=n / DEN,
                     capacity_ceil_or_round=mode, capacity_multiple_of=mult)),
             G, S, 3))
  n2 = min(n, 7)
  h.emit(op='default', via='expert-router', tokens=S, sel=1, experts=max(E, 2),
         mode=mode, mult=1, num=n2, den=DEN, got=router_slots(
             routing.NoisyTopItemsPerExpertRouter(
                 num_experts=max(E, 2), deterministic=True,
                 dispatcher=dict(
                     name='einsum', capacity_factor=n2 / DEN,
                     capacity_ceil_or_round=mode, capacity_multiple_of=1)),
             G, S, 3))
  h.emit(op='default', via='soft-router', tokens=S, sel=1, experts=E,
         mode='round', mult=1, num=n, den=DEN, got=router_slots(
             soft.SoftRouter(num_experts=E, capacity_factor=n / DEN,
                             compute_similarity_metrics=False), G, S, 3))
  C = rng.randint(1, 9)
  h.emit(op='given', via='soft-router', capacity=C, got=router_slots(
      soft.SoftRouter(num_experts=E, num_slots=C,
                      compute_similarity_metrics=False), G, S, 3))
h.close()
