"""Histories of real training steps on linear models."""
import functools
import zlib

from common import H, attempt, fixed
import jax
import jax.numpy as jnp
import numpy as np
import optax
from vmoe import utils
from vmoe.train import train_state
from vmoe.train import trainer

h = H()
S = 4096
DIM, OUT = 2, 2
drawn = []


def crc(x):
  return zlib.crc32(np.ascontiguousarray(x).tobytes()) % 2**30


def apply_fn(variables, images, rngs, aux):
  logits = images @ variables['params']['a']['w']
  bits = tuple(jax.random.key_data(rngs[n]) for n in ('dropout', 'gating'))
  jax.debug.callback(lambda a, b: drawn.append([crc(a), crc(b)]), *bits)
  metrics = {'first': images[:, 0]}
  if aux == 'scalar':
    metrics['auxiliary_loss'] = jnp.mean(jnp.sum(logits ** 2, axis=-1)) / 4
  elif aux == 'array':
    metrics['auxiliary_loss'] = jnp.stack([
        jnp.mean(jnp.sum(logits ** 2, axis=-1)) / 2, jnp.zeros(())])
  return logits, metrics


def loss_fn(logits, labels):
  return jnp.sum((logits - labels) ** 2, axis=-1) / 2


def key_of(state):
  return [crc(state.rngs[n]) for n in ('dropout', 'gating')]


def trace_of(state):
  return state.opt_state[0].trace['a']['w']


def whole(tree):
  return crc(np.concatenate([np.asarray(x).astype('float64').ravel() for x in jax.tree_util.tree_leaves(tree)]))


tx = optax.sgd(1 / 16, momentum=.5)


def history(c):
  n = jax.device_count()
  mesh = jax.sharding.Mesh(np.array(jax.devices()).reshape(c['mesh']), ('expert', 'replica'))
  B = c['per'] * n
  P = jax.sharding.PartitionSpec
  on = lambda *p: jax.sharding.NamedSharding(mesh, P(*p))
  data = on(('expert', 'replica'))
  w = h.np.randint(-3, 4, size=(DIM, OUT)).astype('float32')
  wsh = on('expert') if c['sharded'] and DIM % c['mesh'][0] == 0 else on()
  micro = {0: h.rng.choice([None, 0, -1])}.get(c['micro'], c['micro'])
  state = train_state.TrainState.create(
      apply_fn=functools.partial(apply_fn, aux=c['aux']), params={'a': {'w': jax.device_put(w, wsh)}}, tx=tx,
      rngs=utils.make_rngs(('dropout', 'gating'), h.rng.randrange(1000)))
  step = jax.jit(functools.partial(trainer.train_step, loss_fn=loss_fn, microsteps=micro))
  seq = []
  for i in range(c['steps']):
    x = h.np.randint(-2, 3, size=(B, DIM)).astype('float32')
    y = h.np.randint(-3, 4, size=(B, OUT)).astype('float32')
    xs, ys = jax.device_put(x, data), jax.device_put(y, data)
    with mesh:
      del drawn[:]
      out, err = attempt(step, state, xs, ys)
      if err:
        h.emit(op='reject', per=c['per'], micro=c['micro'], error=err)
        return
      new, metrics = out
      jax.effects_barrier()
      used = list(drawn)
      twice = step(state, xs, ys) if i == 0 else out
      jax.effects_barrier()
    seq.append(dict(
        x=x.astype(int).tolist(), y=y.astype(int).tolist(), n0=int(state.step), n=int(new.step),
        before=fixed(state.params['a']['w'], S), after=fixed(new.params['a']['w'], S),
        trace=fixed(trace_of(state), S), trace1=fixed(trace_of(new), S), exact=i == 0,
        main=fixed(metrics['main_loss'], 1000), total=fixed(metrics['total_loss'], 1000),
        auxm=fixed(metrics.get('auxiliary_loss', 0.), 1000), metric=fixed(metrics['first'], 1000),
        unorm2=fixed(np.float64(metrics['global_norm/updates']) ** 2, S * S),
        gnorm2=fixed(np.float64(metrics['global_norm/grads']) ** 2, (S // 16) ** 2),
        pnorm2=fixed(np.float64(metrics['global_norm/params']) ** 2, (S // 16) ** 2),
        keys=key_of(state), keys1=key_of(new), used=used,
        repeat=whole(twice) == whole(out)))
    state = new
  h.emit(op='history', per=c['per'], micro=c['micro'], aux=c['aux'], mesh=c['mesh'], seq=seq)


cases = list(h.cases)
h.rng.shuffle(cases)
some = [c for c in cases if c['micro'] and c['per'] % c['micro']]
good = [c for c in cases if not c['micro'] or c['per'] % c['micro'] == 0]
for c in good[:h.share(400 if h.thorough else 60)] + some[:h.share(100 if h.thorough else 20)]:
  history(c)
h.close()
