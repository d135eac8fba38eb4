"""Rates of the real schedules at every step."""
from common import H, attempt, fixed
import jax
import jax.numpy as jnp
import numpy as np
from vmoe.train import schedule

h = H()


def one(c, extra):
  W, kind = c['W'], c['kind']
  T = W + c['D'] + c['cool']
  peak, end = c['peak'] / 2, c['end'] / 2
  given = T
  kw = {'warmup_steps': W, 'peak_value': peak}
  if kind == 'constant':
    kw = {'value': peak}
  elif kind == 'warmup_exponential_decay':
    kw.update(transition_steps=c['D'], decay_rate=c['arg'] / 4)
  elif kind == 'big_vision_rsqrt':
    kw.update(timescale=c['arg'], cooldown_steps=c['cool'])
    for k in ('warmup_steps', 'cooldown_steps'):
      if not kw[k] and h.rng.random() < .5:
        del kw[k]
  else:
    kw['end_value'] = end
    if kind == 'warmup_polynomial_decay':
      kw['power'] = c['arg'] / 2
  if kind not in ('constant', 'warmup_exponential_decay') and h.rng.random() < .4:
    # The length is given instead of taken from the run.
    kw['decay_steps'] = T
    given = h.rng.choice([T + 3, max(1, T - 1), 100])
  fn = schedule.create_learning_rate_schedule(schedule=kind, total_steps=given, **kw)
  steps = list(range(T + 1 + extra))
  many = np.asarray(jax.vmap(fn)(jnp.asarray(steps)))       # As in a compiled step.
  some = h.rng.sample(steps, min(4, len(steps)))
  single = np.asarray([float(fn(t)) for t in some])
  again = np.asarray([float(fn(t)) for t in some])
  if kind == 'constant':
    many = np.broadcast_to(many, (len(steps),))
  h.emit(op='schedule', T=T, v=fixed(many, 10000),
         same=bool(np.allclose(single, many[some], atol=1e-6) and (single == again).all()), **c)


for c in h.cases:
  if c['kind'] == 'big_vision_rsqrt' and c['W'] + c['D'] + c['cool'] == 0:
    continue
  one(c, h.rng.choice([3, 6]))
if h.shard == 0:
  for kw, bad in [({'schedule': 'nope'}, True), ({'schedule': 'Constant', 'value': 1.}, True),
                  ({'schedule': 'constant', 'value': 1.}, False),
                  ({'schedule': 'big_vision_rsqrt', 'peak_value': 1., 'timescale': 2, 'warmup_steps': 3, 'cooldown_steps': 3}, True),
                  ({'schedule': 'big_vision_rsqrt', 'peak_value': 1., 'timescale': 2, 'warmup_steps': 3, 'cooldown_steps': 2}, False),
                  ({'schedule': 'big_vision_rsqrt', 'peak_value': 1., 'timescale': 2, 'warmup_steps': 6}, True),
                  ({'schedule': 'big_vision_rsqrt', 'peak_value': 1., 'timescale': 2, 'cooldown_steps': 6}, True),
                  ({'schedule': 'big_vision_rsqrt', 'peak_value': 1., 'timescale': -1}, True)]:
    _, err = attempt(schedule.create_learning_rate_schedule, total_steps=5, **kw)
    h.emit(op='reject', rejected=bool(err), bad=bad)
h.close()
