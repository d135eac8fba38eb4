"""Real mappings of source trees to target trees."""
import os

from common import H, attempt, fixed
import jax
import jax.numpy as jnp
import numpy as np
from vmoe import checkpoints
from vmoe.initialization import initialization
from vmoe.initialization import mapping

h = H()
P = jax.sharding.PartitionSpec
DEV = jax.device_count()
mesh = jax.sharding.Mesh(np.array(jax.devices()), ('d',))
DT = {'f': jnp.float32, 'h': jnp.bfloat16, 'i': jnp.int32}
NAMES = {np.dtype(v).name: k for k, v in DT.items()}


def chars(t):
  return list(t)


def shape_of(nd, lo=1, hi=3):
  return [h.rng.randint(lo, hi) for _ in range(nd)]


class Case:
  """Sources, targets and rules; made to fit, before the twist."""

  def __init__(self, c):
    self.src, self.tgt, self.rules = [], [], []
    self.n = 0
    for j, kind in enumerate(c['kinds']):
      self.group('abc'[j], kind)
    self.twist(c['twist'], c)
    h.rng.shuffle(self.src)
    h.rng.shuffle(self.tgt)

  def values(self, shape):
    self.n += 1
    n = int(np.prod(shape))
    return [(self.n * 23 + i * 3) % 250 for i in range(n)] if n < 40 else [i % 250 for i in range(n)]

  def source(self, name, shape, dtype):
    self.src.append(dict(name=name, shape=list(shape), dtype=dtype, v=self.values(shape), empty=False))

  def target(self, name, shape, dtype, **kw):
    self.tgt.append(dict(name=name, shape=list(shape), dtype=dtype, v=self.values(shape), empty=False,
                         struct=h.rng.random() < .5, **kw))

  def pattern(self, j):
    """Prefix in source and target; a rule's way to rename."""
    how = h.rng.choice(['wrap', 'wrap', 'word'])
    if how == 'wrap':
      v, y = h.rng.choice([('', ''), ('/k', '/w'), ('', '/n')])
      return dict(k='wrap', u=j + '/', v=v, x='t/' + j + '_', y=y)
    return dict(k='word', u=j + '/', x=h.rng.choice(['t/' + j + '/', 'S' + j + '_']))

  def rename(self, p, name):
    if p['k'] == 'wrap':
      return p['x'] + name[len(p['u']):len(name) - len(p['v'])] + p['y']
    if p['k'] == 'word':
      return name.replace(p['u'], p['x'])

  def group(self, j, kind):
    dt = h.rng.choice('ffhi') if kind not in ('zoom', 'vit') else 'f'
    rule = dict(kind=kind, axes=[], reps=[], shape=[], given=False)
    if kind == 'stack':
      nums = h.rng.sample([1, 2, 3, 9, 10, 11, 20, 100], h.rng.randint(2, 3))
      nd = h.rng.randint(0, 2)
      axis = h.rng.randint(0, nd)
      rule.update(p=dict(k='num', u=j + '_', x='S' + j), axes=[axis])
      for leaf in h.rng.sample(['/w', '/k'], h.rng.randint(1, 2)):
        shape = shape_of(nd)
        for n in nums:
          self.source(f'{j}_{n}{leaf}', shape, dt)
        self.target('S' + j + leaf, shape[:axis] + [len(nums)] + shape[axis:], dt)
      self.rules.append(rule)
      return
    p = self.pattern(j)
    rule['p'] = p
    for leaf in h.rng.sample(['p', 'q', 'x', 'y'], h.rng.randint(1, 2)):
      shape = shape_of(h.rng.randint(0, 3))
      to = list(shape)
      if kind == 'squeeze':
        if not rule['axes']:
          rule['axes'] = [h.rng.randint(0, 2)]
        a = rule['axes'][0]
        to = shape_of(a + h.rng.randint(0, 1))
        shape = to[:a] + [1] + to[a:]
      elif kind == 'expand':
        if not rule['axes']:
          rule['axes'] = sorted(h.rng.sample([0, 1, 2], h.rng.randint(1, 2)))
          rule['reps'] = [h.rng.randint(1, 3) for _ in rule['axes']]
        shape = shape_of(h.rng.randint(2, 3), 1, 2)
        to = list(shape)
        for a, n in zip(rule['axes'], rule['reps']):
          to.insert(a, n)
      elif kind == 'reshape':
        to = h.rng.choice([[int(np.prod(shape))], shape[::-1], [1] + shape])
        if rule['given']:
          shape, to = rule['src'], rule['shape']
        elif h.rng.random() < .5 and 'src' not in rule:
          rule.update(given=True, shape=to, src=shape)
        rule.setdefault('src', shape)
      elif kind == 'zoom':
        nd = h.rng.randint(1, 2)
        shape, to = shape_of(nd, 1, 5), shape_of(nd, 1, 6)
      elif kind == 'vit':
        a, b, ch = h.rng.randint(1, 4), h.rng.randint(1, 4), h.rng.randint(1, 2)
        shape, to = [1, a * a + h.rng.randint(0, 1), ch], [1, b * b + h.rng.randint(0, 1), ch]
        if shape[1] == 2 or to[1] == 2:     # One place and a token.
          pass
      name = j + '/' + (j + '/' if h.rng.random() < .4 else '') + leaf + p.get('v', '')
      self.source(name, shape, dt)
      if kind != 'drop':
        self.target(self.rename(p, name), to, dt)
    rule.pop('src', None)
    self.rules.append(rule)
    h.rng.shuffle(self.rules)

  def twist(self, kind, c):
    some = h.rng.choice(self.src)
    tgt = h.rng.choice(self.tgt) if self.tgt else None
    if kind == 'extra source':
      self.source('d/z', [2], 'f')
      if h.rng.random() < .6:
        self.target('d/z', [2], 'f')
    elif kind == 'extra target':
      self.target('d/z', [2], 'f')
    elif kind == 'shape' and tgt:
      how = h.rng.choice(['front', 'other', 'grow'])
      if how == 'front':
        tgt['shape'] = [2] + tgt['shape']
      elif how == 'other':
        tgt['shape'] = tgt['shape'][::-1] + [2]
      else:
        tgt['shape'] = [n + 1 for n in tgt['shape']]
      tgt['v'] = self.values(tgt['shape'])
    elif kind == 'dtype' and tgt and not any(k in ('zoom', 'vit') for k in c['kinds']):
      tgt['dtype'] = h.rng.choice([d for d in 'fhi' if d != tgt['dtype']])
    elif kind == 'twice':
      other = h.rng.choice(self.src)
      self.rules.insert(0, dict(kind='copy', axes=[], reps=[], shape=[], given=False,
                                p=dict(k='wrap', u=some['name'], v='', x=h.rng.choice(
                                    [t['name'] for t in self.tgt] or ['t']), y='')))
    elif kind == 'shadow':
      # A rule about one of the sources, before or after the others.
      at = h.rng.choice([0, len(self.rules)])
      if h.rng.random() < .5:
        self.rules.insert(at, dict(kind='drop', axes=[], reps=[], shape=[], given=False,
                                   p=dict(k='word', u=some['name'], x='')))
      else:
        self.rules.insert(at, dict(kind='copy', axes=[], reps=[], shape=[], given=False,
                                   p=dict(k='wrap', u=some['name'], v='', x='z/z', y='')))
        if h.rng.random() < .7:
          self.target('z/z', some['shape'], some['dtype'])
    elif kind == 'empty' and h.rng.random() < .4:
      self.tgt.append(dict(name='d/n', shape=[], dtype='f', v=[], empty=True, struct=False))
    elif kind == 'empty':
      self.src.append(dict(name='d/n', shape=[], dtype='f', v=[], empty=True))
      self.rules.append(dict(kind='copy', axes=[], reps=[], shape=[], given=False,
                             p=dict(k='wrap', u='d', v='', x='d', y='')))
      if h.rng.random() < .7:
        self.tgt.append(dict(name='d/n', shape=[], dtype='f', v=[], empty=True, struct=False))
      else:
        self.target('d/n', [1], 'f')
    elif kind == 'word':
      self.rules.insert(h.rng.randint(0, len(self.rules)), dict(
          kind='copy', axes=[], reps=[], shape=[], given=False,
          p=dict(k='word', u=h.rng.choice(['p', 'x', '/', 'a']), x=h.rng.choice(['q', 'zz', 'p']))))


def unparsed(r):
  p = r['p']
  if p['k'] == 'wrap':
    pat, rep = '^' + p['u'] + '(.*)' + p['v'] + '$', p['x'] + r'\g<1>' + p['y']
  elif p['k'] == 'num':
    pat, rep = '^' + p['u'] + r'\d+(.*)$', p['x'] + r'\g<1>'
  else:
    pat, rep = p['u'], p['x']
  kind = r['kind']
  if kind == 'drop':
    return (pat, h.rng.choice([None, '']))
  if kind == 'copy':
    return (pat, rep)
  if kind == 'reshape':
    return (pat, rep, 'reshape') + ((tuple(r['shape']),) if r['given'] else ())
  if kind == 'expand':
    one = len(r['axes']) == 1 and h.rng.random() < .5
    return (pat, rep, 'expand_tile', r['axes'][0] if one else tuple(r['axes']),
            r['reps'][0] if one else tuple(r['reps']))
  if kind in ('squeeze', 'stack'):
    return (pat, rep, kind, r['axes'][0])
  return (pat, rep, {'zoom': 'zoom', 'vit': 'vit_zoom'}[kind])


def nest(leaves, values):
  out = {}
  for e, v in zip(leaves, values):
    d = out
    ks = e['name'].split('/')
    for k in ks[:-1]:
      d = d.setdefault(k, {})
    if ks[-1] in d:
      return None
    d[ks[-1]] = v
  return out


def flat(tree, pre=''):
  out = {}
  for k, v in tree.items():
    if isinstance(v, dict) and v:
      out.update(flat(v, pre + k + '/'))
    else:
      out[pre + k] = v
  return out


def spec_for(shape):
  for a, n in enumerate(shape):
    if n % DEV == 0 and h.rng.random() < .5:
      return P(*([None] * a + ['d']))
  return P()


def ok(leaves):
  """Names form a tree."""
  names = [e['name'] for e in leaves]
  return len(set(names)) == len(names) and not any(
      a != b and b.startswith(a + '/') for a in names for b in names)


def ready(fn, **kw):
  return jax.block_until_ready(fn(**kw))


def one(c, n):
  case = Case(c)
  if not ok(case.src) or not ok(case.tgt) or not case.tgt:
    return
  via = 'direct' if any(e['empty'] for e in case.src + case.tgt) else h.rng.choice(['direct'] * 6 + ['vmoe', 'vit'])
  strict = {k: {'all': True, 'none': False, 'mixed': h.rng.random() < .5}[c['strict']]
            for k in ('dtype', 'shape', 'source', 'target')}
  arrays = [{} if e['empty'] else np.asarray(e['v'], 'float32').reshape(e['shape']).astype(DT[e['dtype']])
            for e in case.src]
  source = nest(case.src, arrays)
  shardings = [jax.sharding.NamedSharding(mesh, spec_for(e['shape'])) for e in case.tgt]
  tvals = []
  for e, s in zip(case.tgt, shardings):
    if e['empty']:
      tvals.append({})
    elif e['struct']:
      tvals.append(jax.ShapeDtypeStruct(tuple(e['shape']), DT[e['dtype']], sharding=s))
    else:
      tvals.append(jax.device_put(np.asarray(e['v'], 'float32').reshape(e['shape']).astype(DT[e['dtype']]), s))
  target = nest(case.tgt, tvals)
  if source is None or target is None:
    return
  rules = [unparsed(r) for r in case.rules]
  if h.rng.random() < .3:
    rules = mapping.Rules.parse(rules)
  kw = {f'raise_if_{k}_' + ('unmatched' if k in ('source', 'target') else 'mismatched'): v
        for k, v in strict.items()}
  defaults = dict(dtype=False, shape=True, source=True, target=True)
  if strict == defaults:
    kw = {}
  put = lambda t: jax.tree_util.tree_map(
      lambda x: jax.device_put(x, jax.sharding.NamedSharding(mesh, P())), t)
  with mesh:
    if via == 'direct':
      got, err = attempt(ready, mapping.map_state_dict, source=put(source), target=target, rules=rules, **kw)
    elif via == 'vit':
      path = os.path.join(h.work, 'v.npz')
      with open(path, 'wb') as fp:
        np.savez(fp, **{e['name']: a.view('V2') if e['dtype'] == 'h' else a for e, a in zip(case.src, arrays)})
      got, err = attempt(ready, initialization.initialize_from_vit, target=target, filepath=path, rules=rules, mesh=mesh,
                         axis_resources_regexes=h.rng.choice([None, [('.*', ())]]), **kw)
    else:
      path = os.path.join(h.work, 'm%d' % n)
      checkpoints.save_checkpoint_partitioned(prefix=path, tree=put(source), num_shards=h.rng.choice([1, 2])).get()
      got, err = attempt(ready, initialization.initialize_from_vmoe, target=target, prefix=path, rules=rules, mesh=mesh, **kw)
  out = []
  if not err:
    found = flat(got)
    for e, s in zip(case.tgt, shardings):
      v = found[e['name']]
      empty = isinstance(v, dict)
      if empty:
        out.append(dict(empty=True))
        continue
      struct = isinstance(v, jax.ShapeDtypeStruct)
      out.append(dict(empty=False, struct=struct, shape=list(v.shape), dtype=NAMES.get(np.dtype(v.dtype).name, '?'),
                      sharded=bool(v.sharding.is_equivalent_to(s, len(v.shape))),
                      v=[] if struct else fixed(np.asarray(v).astype('float64').ravel(), 1000)))
  name = lambda e: dict(e, name=chars(e['name']))
  h.emit(op='map', via=via, sources=[name(e) for e in case.src], targets=[name(e) for e in case.tgt],
         rules=[dict(r, p={k: v if k == 'k' else chars(v) for k, v in r['p'].items()}) for r in case.rules],
         strictS=strict['source'], strictT=strict['target'], strictShape=strict['shape'], strictDtype=strict['dtype'],
         rejected=bool(err), error=err, got=out)


cases = list(h.cases)
h.rng.shuffle(cases)
calm = [c for c in cases if c['twist'] == 'none']
wild = [c for c in cases if c['twist'] != 'none']
n = h.share(4000 if h.thorough else 480)
for i, c in enumerate(calm[:n // 2] + wild[:n - n // 2]):
  one(c, i)
h.close()
