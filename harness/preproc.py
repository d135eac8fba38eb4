"""Real preprocessing expressions on small examples; parsed calls."""
import builtins
import os
import sys
import types

os.environ.setdefault('CUDA_VISIBLE_DEVICES', '')
from common import H, attempt, fixed
import numpy as np
import tensorflow as tf
from vmoe import utils
from vmoe.data import input_pipeline
from vmoe.data import pp_ops

h = H()
rng = h.rng
U = 10000
VALID = '__valid__'
ran = []


def spy(*args, **kwargs):
  ran.append((args, kwargs))
  return 1


builtins.spy = spy
tf.random.set_seed(h.seed * 31 + h.shard)

# ---- Programs -------------------------------------------------------------
PNGS = {}


def image(t=None):
  t = t or rng.choice(['uint8', 'int32', 'float32', 'float32', 'png'])
  s = [rng.choice([1, 2, 2, 3, 4, 4, 5]), rng.choice([1, 2, 3, 4, 4, 5]), rng.choice([1, 3] if t == 'png' else [1, 1, 2, 3])]
  v = h.np.randint(0, 256 if t in ('uint8', 'png') else 20, s)
  if t == 'png':
    b = tf.io.encode_png(v.astype('uint8')).numpy()
    PNGS[b] = v
    return t, v, b
  return t, v, v.astype(t)


def array(t, v):
  v = np.asarray(v)
  return t, v, v.astype(t)


def entry(path, t, v):
  return dict(p=list(path), t=t, s=list(np.shape(v)), v=[int(x) for x in fixed(np.asarray(v, 'float64').ravel(), U)])


def tell(data, path=()):
  out = []
  for k, x in data.items():
    if isinstance(x, dict):
      out += tell(x, path + (k,))
      continue
    x = x.numpy() if hasattr(x, 'numpy') else x
    if isinstance(x, (bytes, np.bytes_)):
      out.append(entry(path + (k,), 'png', PNGS[bytes(x)]))
    else:
      x = np.asarray(x)
      out.append(entry(path + (k,), str(x.dtype), x))
  return out


def spelled(x):
  if isinstance(x, (tuple, list)) and rng.random() < .5:
    return repr(list(x))
  return repr(x)


def render(name, args, kwargs, keep=0):
  """The call, with the last arguments by keyword; args are (name, value)."""
  cut = rng.randint(keep, len(args))
  pos, kw = args[:cut], args[cut:] + kwargs
  kw = rng.sample(kw, len(kw))
  parts = [spelled(v) for _, v in pos] + [f'{k}={spelled(v)}' for k, v in kw]
  if not parts and rng.random() < .5:
    return name
  return name + '(' + rng.choice([', ', ',', ' , ']).join(parts) + ')'


BASE = dict(op='', i='image', o='image', h=0, w=0, method='bilinear', amin=5, amax=100, shape=[1], lo=0, hi=1,
            imin=[0], imax=[255], clip=False, depth=1, multi=True, on=1, off=0, channels=3, keys=[])
KEYS = ['image', 'labels', 'x', 'y', 'z']


def cut_tail(args, defaults):
  """Drops arguments that have their default value, sometimes."""
  return [(k, v) for k, v in args if k not in defaults or defaults[k] != v or rng.random() < .4]


def step(name, keys, data):
  """Text and description of an operation; data tells what there is."""
  o = dict(BASE, op=name)
  default = 'labels' if name == 'onehot' else 'image'
  kw = []
  o['i'] = o['o'] = default
  have = list(data)
  if name not in ('copy', 'keep', 'ignore_no_labels', 'flatten'):
    if keys == 'key':
      o['i'] = o['o'] = rng.choice(have) if rng.random() < .9 else rng.choice(KEYS)
      kw = [('key', o['i'])]
      if rng.random() < .15:
        kw.append(('outkey', 'y'))     # `key` has the last word
    elif keys == 'inout':
      which = rng.choice(['in', 'out', 'both', 'both'])
      if which != 'out':
        o['i'] = rng.choice(have) if rng.random() < .9 else rng.choice(KEYS)
        kw.append(('inkey', o['i']))
      if which != 'in':
        o['o'] = rng.choice(KEYS)
        kw.append(('outkey', o['o']))
  x = data.get(o['i'])
  three = x is not None and not isinstance(x, dict) and len(x[1]) == 3
  H_, W_ = (x[1][0], x[1][1]) if three else (2, 2)
  whole = three and x[0] != 'float32'
  if name == 'central_crop':
    o['h'], o['w'] = rng.randint(1, H_ + (rng.random() < .1)), rng.randint(1, W_)
    if rng.random() < .4:
      o['w'] = o['h'] = min(H_, W_, o['h'])
    arg = o['h'] if o['h'] == o['w'] and rng.random() < .7 else (o['h'], o['w'])
    return render(name, [('crop_size', arg)], kw), o
  if name in ('resize', 'inception_crop'):
    o['method'] = rng.choice(['nearest', 'bilinear', 'bilinear', 'area'])
    o['h'], o['w'] = rng.randint(1, 6), rng.randint(1, 6)
    if whole:
      # Weights of the interpolation that are exact.
      if name == 'inception_crop' or not (H_ in (1, 2, 4) and W_ in (1, 2, 4)):
        o['method'] = 'nearest'
      else:
        o['h'], o['w'] = rng.choice([1, 2, 4]), rng.choice([1, 2, 4])
    if rng.random() < .4:
      o['w'] = o['h']
    arg = o['h'] if o['h'] == o['w'] and rng.random() < .7 else (o['h'], o['w'])
    if name == 'resize':
      args = cut_tail([('resize_size', arg), ('resize_method', o['method'])], dict(resize_method='bilinear'))
      return render(name, args, kw), o
    if o['method'] == 'area':
      o['method'] = 'nearest'
    if rng.random() < .6:
      o['h'] = o['w'] = 0
      arg, o['method'] = None, 'bilinear'
    o['amin'], o['amax'] = rng.choice([(5, 100), (5, 50), (40, 100), (80, 100), (30, 60)])
    args = [('resize_size', arg), ('area_min', o['amin']), ('area_max', o['amax']), ('resize_method', o['method'])]
    kept = cut_tail(args, dict(resize_size=None, area_min=5, area_max=100, resize_method='bilinear'))
    n = 0
    while n < len(kept) and kept[n] == args[n]:
      n += 1
    return named(name, kept, n, kw), o
  if name == 'resize_small':
    o['h'] = rng.randint(1, 5)
    return render(name, [('smaller_size', o['h'])], kw), o
  if name in ('flip_lr',):
    return render(name, [], kw), o
  if name == 'reshape':
    n = int(np.prod(x[1])) if x is not None and not isinstance(x, dict) else 4
    opts = [[n], [1, n], [n, 1, 1], [1, n, 1]] + [[a, n // a] for a in range(1, n + 1) if n % a == 0] + [[2, n]]
    o['shape'] = rng.choice(opts if n else [[0], [1, 0], [2]])
    arg = rng.choice([o['shape'], tuple(o['shape'])])
    return render(name, [('new_shape', arg)], kw), o
  if name == 'value_range':
    o['lo'], o['hi'] = rng.choice([(0, 1), (-1, 1), (-1, 0), (-2, 2), (1, -1)])
    o['imin'], o['imax'] = rng.choice([([0], [255]), ([0], [255]), ([0], [10]), ([2], [7]), ([-5], [5])])
    if three and rng.random() < .3:
      o['imin'] = [rng.randint(-2, 2) for _ in range(x[1][2])]
      o['imax'] = [v + rng.choice([1, 2, 5, 10]) for v in o['imin']]
    o['clip'] = rng.random() < .4 and o['lo'] < o['hi']
    if rng.random() < .5:
      o['clip'] = False
    num = rng.choice([int, float])
    lst = lambda v: num(v[0]) if len(v) == 1 else [num(q) for q in v]
    args = [('vmin', num(o['lo'])), ('vmax', num(o['hi'])), ('in_min', lst(o['imin'])), ('in_max', lst(o['imax'])),
            ('clip_values', o['clip'])]
    kept = cut_tail(args, dict(in_min=0, in_max=255, clip_values=False))
    n = 0
    while n < len(kept) and kept[n] == args[n]:
      n += 1
    return named(name, kept, n, kw), o
  if name == 'onehot':
    o['depth'] = rng.randint(4, 6)
    o['multi'] = rng.random() < .6
    o['on'], o['off'] = rng.choice([(1, 0), (1, 0), (2, -1), (0, 1), (3, 1)])
    args = [('depth', o['depth']), ('multi', o['multi']), ('on', float(o['on'])), ('off', float(o['off']))]
    kept = cut_tail(args, dict(multi=True, on=1.0, off=0.0))
    n = 0
    while n < len(kept) and kept[n] == args[n]:
      n += 1
    return named(name, kept, n, kw), o
  if name == 'decode':
    o['channels'] = rng.choice([3, 3, 0])
    if three and x[1][2] == 1 and rng.random() < .5:
      o['channels'] = 1
    return render(name, cut_tail([('channels', o['channels'])], dict(channels=3)), kw), o
  if name == 'copy':
    o['i'] = rng.choice(have) if rng.random() < .9 else rng.choice(KEYS)
    o['o'] = rng.choice(KEYS)
    return render(name, [('inkey', o['i']), ('outkey', o['o'])], []), o
  if name == 'keep':
    o['keys'] = rng.sample(KEYS, rng.randint(0, 3))
    return render(name, [('', k) for k in o['keys']], [], keep=len(o['keys'])), o
  if name == 'ignore_no_labels':
    o['i'], o['o'] = 'labels', VALID
    kw = []
    if rng.random() < .3:
      o['i'] = rng.choice(have)
      kw.append(('labels_key', o['i']))
    if rng.random() < .3:
      o['o'] = 'ok'
      kw.append(('valid_key', 'ok'))
    return render(name, [], kw), o
  return rng.choice(['flatten', 'flatten()']), o


def named(name, kept, n, kw):
  cut = rng.randint(0, n)
  pos, rest = kept[:cut], kept[cut:] + kw
  rest = rng.sample(rest, len(rest))
  return name + '(' + ', '.join([spelled(v) for _, v in pos] + [f'{k}={spelled(v)}' for k, v in rest]) + ')'


def example(progs):
  data = {}
  wants_png = progs[0] == 'decode'
  data['image'] = image('png' if wants_png else None if rng.random() < .7 else 'float32')
  if data['image'][0] == 'png' and not wants_png:
    data['image'] = image('float32')
  n = rng.choice([0, 0, 1, 2, 3])
  data['labels'] = array(rng.choice(['int32', 'int64']), rng.randint(0, 3) if rng.random() < .3 else h.np.randint(0, 4, [n]))
  if rng.random() < .5:
    data['x'] = image('float32') if rng.random() < .5 else array('int32', 5)
  if rng.random() < .3:
    data['y'] = {'a': array('int32', [1, 2]), 'b': {'c': array('float32', [3.])} if rng.random() < .5 else array('float32', 7.)}
  if rng.random() < .3:
    data[VALID] = array('bool', rng.random() < .5)
  return data


def nested(d, i):
  return {k: nested(v, i) if isinstance(v, dict) else v[i] for k, v in d.items()}


def shadow(data, o):
  """What there is after the operation, roughly: to choose the next one."""
  d = dict(data)
  if o['op'] == 'keep':
    return {k: v for k, v in d.items() if k in o['keys'] + [VALID]} or d
  if o['i'] not in d:
    return d
  x = d[o['i']]
  if o['op'] == 'copy':
    d[o['o']] = x
  elif o['op'] == 'ignore_no_labels':
    d[o['o']] = ('bool', [])
  elif not isinstance(x, dict) and o['op'] != 'flatten':
    t, s = x[0], list(np.shape(x[1])) if not isinstance(x[1], list) else x[1]
    if len(s) == 3:
      c = s[2]
      if o['op'] in ('central_crop', 'resize') or (o['op'] == 'inception_crop' and o['h']):
        s = [o['h'], o['w'], c]
      elif o['op'] == 'resize_small':
        t, m = 'float32', min(s[:2])
        s = [round(s[0] * o['h'] / m), round(s[1] * o['h'] / m), c]
      elif o['op'] == 'decode':
        t, s = 'uint8', s[:2] + [o['channels'] or c]
    if o['op'] == 'reshape':
      s = o['shape']
    if o['op'] == 'value_range':
      t = 'float32'
    if o['op'] == 'onehot':
      t, s = 'float32', [o['depth']]
    d[o['o']] = (t, s)
  return d


def shaped(d):
  return {k: shaped(v) if isinstance(v, dict) else (v[0], list(np.shape(v[1]))) for k, v in d.items()}


def program(steps):
  data = example([s for s, _ in steps])
  have = shaped(data)
  text, ops, crops = [], [], 0
  for name, keys in steps:
    if name == 'inception_crop':
      crops += 1
      if crops > 1:
        continue
    t, o = step(name, keys, have)
    x = have.get(o['i'])
    if name in ('resize', 'resize_small', 'value_range') and crops and x and not isinstance(x, dict) and x[0] != 'float32':
      continue
    if name == 'onehot' and x and not isinstance(x, dict) and (not x[0].startswith('int') or len(x[1]) > 1 or o['i'] not in ('labels', 'x')):
      continue
    if name == 'onehot' and o['i'] == 'x':
      continue
    if name == 'onehot' and any(q['op'] in ('copy', 'value_range', 'flip_lr', 'reshape') and q['o'] == o['i'] for q in ops):
      continue
    if name == 'decode' and (x is None or isinstance(x, dict) or x[0] != 'png'):
      if rng.random() < .8:
        continue
    if name == 'value_range' and sum(q['op'] == 'value_range' for q in ops) == 2:
      continue
    if name == 'reshape' and crops and o['i'] == 'image':
      continue
    if name == 'value_range' and x and not isinstance(x, dict) and x[0] == 'bool':
      continue
    if name in ('reshape', 'resize', 'central_crop', 'flip_lr', 'inception_crop', 'resize_small') and x and not isinstance(x, dict) and x[0] == 'bool':
      continue
    text.append(t)
    ops.append(o)
    have = shadow(have, o)
  if not ops:
    return
  raw = nested(data, 2)
  told = tell(raw)
  mode = rng.choice(['eager'] * 5 + ['map', 'loose'])
  expr = '|'.join(text)

  def go():
    fn = input_pipeline.get_data_process_fn(expr)
    # Datasets have no empty elements.
    some = lambda d: {'_': 0} | fn(d)
    rest = lambda d: {k: v for k, v in d.items() if k != '_'}
    if mode == 'eager':
      return fn(tf.nest.map_structure(tf.constant, raw))
    if mode == 'map':
      ds = tf.data.Dataset.from_tensors(raw).map(some)
      return rest(next(iter(ds)))
    spec = tf.nest.map_structure(lambda v: tf.TensorSpec([None] * np.ndim(v) if np.ndim(v) != 3 else [None, None, np.shape(v)[2]],
                                                         tf.constant(v).dtype), raw)
    ds = tf.data.Dataset.from_generator(lambda: iter([raw]), output_signature=spec).map(some)
    return rest(next(iter(ds)))

  got, err = attempt(go)
  h.emit(op='run', text=expr, mode=mode, data=told, prog=ops, rejected=bool(err), error=err, got=tell(got) if not err else [])


# ---- Calls ----------------------------------------------------------------
def make(name):
  def fn(*args, **kwargs):
    return spy(*args, **kwargs)
  fn.tag = name
  return fn


default = types.SimpleNamespace(f=make('f'), g=make('g'), spy=spy, a=make('a'))
pkg, mod = types.ModuleType('vpkg'), types.ModuleType('vpkg.mod')
pkg.__path__ = []
pkg.mod, pkg.f, mod.f, mod.g, pkg.spy = mod, make('vpkg.f'), make('vpkg.mod.f'), make('vpkg.mod.g'), spy
sys.modules['vpkg'], sys.modules['vpkg.mod'] = pkg, mod


def D(t, v='', xs=()):
  return dict(t=t, v=v, xs=list(xs))


def lit(kind, depth=0):
  """(text, description)."""
  sub = lambda: lit(rng.choice(['int', 'str', 'none', 'float', 'negint'] + (['tuple', 'list', 'dict'] if depth < 2 else [])), depth + 1)
  seq = lambda bad=None: [lit(bad, depth + 1) if bad and i == 1 else sub() for i in range(rng.randint(0, 3) if not bad else 3)]
  tup = lambda ts: '(' + ', '.join(t for t, _ in ts) + (',' if len(ts) == 1 else '') + ')'
  if kind == 'int':
    v = rng.randint(0, 9)
    return str(v), D('int', str(v))
  if kind == 'negint':
    v = rng.randint(1, 9)
    return f'-{v}', D('int', str(-v))
  if kind == 'float':
    v = rng.choice([.5, 1., 2.5, 1e-3, -1.5])
    return repr(v), D('float', repr(v))
  if kind == 'str':
    v = rng.choice(['', 'a', 'spy()', '__import__("os")', "it's", 'a(b', 'é', '{x}', 'f', 'lambda: 0'])
    return repr(v), D('str', v)
  if kind == 'none':
    return 'None', D('none')
  if kind == 'true':
    v = rng.choice(['True', 'False'])
    return v, D('bool', v)
  if kind == 'tuple':
    ts = seq()
    return tup(ts), D('tuple', xs=[d for _, d in ts])
  if kind in ('list', 'nested', 'deepcall', 'deepname'):
    ts = seq(dict(deepcall='call', deepname='name').get(kind))
    return '[' + ', '.join(t for t, _ in ts) + ']', D('list', xs=[d for _, d in ts])
  if kind in ('dict', 'keycall'):
    ts = seq()
    if kind == 'keycall':
      return "{spy(): 1}", D('dict', xs=[D('call'), D('int', '1')])
    return '{' + ', '.join(f'{i}: {t}' for i, (t, _) in enumerate(ts)) + '}', D('dict', xs=[x for i, (_, d) in enumerate(ts) for x in (D('int', str(i)), d)])
  if kind == 'set':
    return '{3}', D('set', xs=[D('int', '3')])
  text = dict(name=['spy', 'f', 'image', 'true'], attr=['vpkg.f', 'a.b'], call=['spy()', 'spy(1, 2)', "__import__('builtins').spy()", 'vpkg.spy()',
              "eval('spy()')"],
              fstr=["f'{spy()}'", "f'{1}'"], comp=['[spy() for _ in (1, 2)]', '[i for i in (1,)]'], sum=['1 + 1', '[1] + [2]', '2 ** 3', 'not True', 'spy() + 1'],
              subscript=['(1, 2)[0]', 'spy()[0]'], star=['*[1]', '*spy()'])
  text['lambda'] = ['lambda: spy()', '(lambda: 1)()']
  return rng.choice(text[kind]), D(kind)


def describe(x):
  if isinstance(x, bool):
    return D('bool', str(x))
  if x is None:
    return D('none')
  if isinstance(x, (int, float, str)):
    return D(type(x).__name__, x if isinstance(x, str) else repr(x))
  if isinstance(x, (tuple, list)):
    return D(type(x).__name__, xs=[describe(v) for v in x])
  if isinstance(x, dict):
    return D('dict', xs=[describe(q) for k, v in x.items() for q in (k, v)])
  if isinstance(x, set):
    return D('set', xs=[describe(v) for v in sorted(x)])
  return D('other', type(x).__name__)


CALLEE = dict(
    name=['f', 'g'], dotted=['vpkg.f'], deep=['vpkg.mod.f', 'vpkg.mod.g'], missing=['nope', 'vpkg.nope'], nomodule=['nopkg.f', 'vpkg.f.f'],
    callmid=['spy().f', 'vpkg.spy().f', "__import__('vpkg').f"], called=['spy()', 'vpkg.spy()', 'f(1)'], subscript=['f[0]', 'spy()[0]'],
    submid=['f[0].g', '[spy()][0].f'], number=['3'], string=["'f'"], sum=['f + g', 'spy() or f'],
    ternary=['f if spy() else g'], walrus=['(q := spy())'], empty=['', ' '], statement=['import vpkg', 'f = 1', 'spy(); f', 'spy()\nf'],
    two=['f g', 'f, (g'], open=['f(', 'f)', 'f(1', "f('"], tuple=['(f, g)', '[f]'])
CALLEE['lambda'] = ['(lambda: spy())', '(lambda *a, **k: spy())']


def call(c):
  callee = rng.choice(CALLEE[c['callee']])
  args, kw = [], []
  text = callee
  if c['args'] != 'bare' and c['callee'] not in ('empty', 'statement', 'open'):
    if c['args'] != 'none':
      kinds = [c['args']] + [rng.choice(['int', 'str']) for _ in range(rng.randint(0, 2))]
      rng.shuffle(kinds)
      args = [lit(k) for k in kinds]
      if c['kw'] != 'none':
        k = c['kw'] if c['kw'] != 'star' else 'int'
        kw = list(zip(rng.sample(['k', 'z', 'outkey'], 2), [lit(k), lit('int')]))
    inner = ', '.join([t for t, _ in args] + [f'{k}={t}' for k, (t, _) in kw])
    text = f'{callee}({inner})'
  elif c['callee'] == 'called':
    text = 'f()()'
  ran.clear()
  got, err = attempt(utils.parse_call, text, default)
  fn, gargs, gkw = got or (None, (), {})
  h.emit(op='call', text=text, callee=c['callee'], args=[d for _, d in args], kw=[dict(k=k, v=d) for k, (_, d) in kw], rejected=bool(err),
         error=err, ran=len(ran), want=callee, found=getattr(fn, 'tag', ''), gotargs=[describe(x) for x in gargs],
         gotkw=[dict(k=str(k), v=describe(v)) for k, v in gkw.items()])


progs = [c['steps'] for c in h.cases if c['kind'] == 'prog']
calls = [c['c'] for c in h.cases if c['kind'] == 'call']
short = [p for p in progs if len(p) == 1]
long = [p for p in progs if len(p) > 1]
for p in short * (12 if h.thorough else 5):
  program(p)
for p in rng.sample(long, min(len(long), h.share(7000 if h.thorough else 1100))):
  program(p)
for _ in range(h.share(1500 if h.thorough else 150)):
  program(rng.choice(long) + rng.choice(long))
for c in calls * (6 if h.thorough else 1):
  call(c)

if h.shard == 0:
  tf.random.set_seed(h.seed)
  im = tf.reshape(tf.range(6), [1, 6, 1])
  fn = input_pipeline.get_data_process_fn('flip_lr')
  seen = [fn({'image': im})['image'].numpy().ravel().tolist() for _ in range(120)]
  h.emit(op='flips', n=120, same=seen.count([0, 1, 2, 3, 4, 5]), flipped=seen.count([5, 4, 3, 2, 1, 0]))
  im = tf.reshape(tf.range(1600), [40, 40, 1])
  for lo, hi in [(5, 100), (10, 20), (60, 90)]:
    fn = input_pipeline.get_data_process_fn(f'inception_crop(area_min={lo}, area_max={hi})')
    wins = [tuple(fn({'image': im})['image'].shape) for _ in range(40)]
    bad = [w for w in wins if not lo - 5 <= 100 * w[0] * w[1] / 1600 <= hi + 5]
    h.emit(op='crops', lo=lo, hi=hi, windows=len(set(wins)), bad=len(bad))
  for H_, W_, hw, lo, hi in [(16, 24, 0, 5, 100), (16, 24, 8, 5, 100), (24, 16, (4, 6), 10, 50), (32, 32, 0, 60, 90), (32, 32, 0, 5, 20)]:
    for _ in range(4):
      colour = h.np.randint(0, 256, [1, 1, 1]) * np.ones([H_, W_, 3])
      jpg = tf.io.encode_jpeg(colour.astype('uint8'), quality=100)
      fn = input_pipeline.get_data_process_fn(f'decode_jpeg_and_inception_crop({hw or None}, {lo}, {hi})')
      out = fn({'image': jpg})['image'].numpy()
      size = (hw, hw) if isinstance(hw, int) else hw
      h.emit(op='jpeg', H=H_, W=W_, h=size[0], w=size[1], amin=lo, amax=hi, got=list(out.shape), t=str(out.dtype),
             worst=int(np.abs(out.astype(int) - int(colour.flat[0])).max()))
  for x in [[1], (1,), tf.constant(1), None, 'image']:
    _, err = attempt(input_pipeline.get_data_process_fn('keep("image")'), x)
    h.emit(op='dict', rejected=bool(err))
  for text in ['keep("a")|nope', 'nope(1)|keep("a")', 'keep("a")|', '|keep("a")', '', 'keep("a")||copy("a", "b")', 'keep("a")|spy()', 'keep(spy())',
               'keep("a")|copy(a, b)', 'keep "a"']:
    ran.clear()
    _, err = attempt(input_pipeline.get_data_process_fn, text)
    h.emit(op='unknown', text=text, rejected=bool(err), ran=len(ran))
  for text in ['randaug', 'randaug(2, 10)', 'tokenize(4, "yes")', 'tokenize(4, "maybe")']:
    if pp_ops.autoaugment is None and pp_ops.bv_ops_text is None:
      _, err = attempt(input_pipeline.get_data_process_fn, text)
      h.emit(op='absent', text=text, rejected=bool(err))
h.close()
