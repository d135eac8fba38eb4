"""Discovery and removal of checkpoints in real directories."""
import os
import shutil

from common import H, attempt
from vmoe.checkpoints import base

h = H()


def name(p, f, t, pad=5):
  shard = f'-{f["i"]:0{pad}d}-of-{f["n"]:0{pad}d}' if f['n'] else ''
  return ('.tmp.' if f['tmp'] else '') + f'{p}_{t}{f["s"]}{shard}'


def entry(p, f, t):
  return dict(p=p, t=t, s=f['s'], i=f['i'], n=f['n'], tmp=f['tmp'])


PLAIN = dict(s='', i=0, n=0, tmp=False)
IDX = dict(s='.index', i=0, n=0, tmp=False)
DAT = dict(s='.data', i=0, n=0, tmp=False)
REQ = {'none': [''], 'both': ['.index', '.data'], 'index': ['.index']}
cases = list(h.cases)
h.rng.shuffle(cases)
if not h.thorough:
  cases = cases[:1600]
for n, c in enumerate(cases):
  d = os.path.join(h.work, f'd{n}')
  os.makedirs(d)
  lo, hi = h.rng.choice([(2, 10), (9, 10), (99, 100), (0, 7), (5, 1000000)])
  files = [('ckpt', f, lo) for f in c['lo']] + [('ckpt', f, hi) for f in c['hi']]
  if h.rng.random() < .3:
    files += [('ckpt', f, hi + 3) for f in
              h.rng.choice([[IDX, DAT], [PLAIN], [IDX]])]
  big = hi + 50
  if c['extra'] == 'other':
    files += [('ckpt_best', f, big) for f in (PLAIN, IDX, DAT)]
  elif c['extra'] == 'othertmp':
    files += [('ckpt_best', dict(f, tmp=True), t) for f in (PLAIN, DAT)
              for t in (lo, hi)]
  elif c['extra'] == 'longer':
    files += [('ckpts', f, big) for f in (PLAIN, IDX, DAT)]
  elif c['extra'] == 'nested':
    files += [(f'ckpt_{hi}', f, big) for f in (PLAIN, IDX, DAT)]
  h.rng.shuffle(files)
  for p, f, t in files:
    open(os.path.join(d, name(p, f, t)), 'w').close()
  prefix = os.path.join(d, 'ckpt')
  req = REQ[c['req']]
  arg = None if req == [''] else req if h.rng.random() < .5 else tuple(req[::-1])
  up, e1 = attempt(lambda: list(base.iterate_complete_steps_for_prefix(
      prefix, arg)))
  down, e2 = attempt(lambda: list(base.iterate_complete_steps_for_prefix(
      prefix, arg, decreasing=True)))
  last, e3 = attempt(base.find_latest_complete_checkpoint_for_prefix, prefix,
                     arg)
  step = -1
  if last is not None:
    step = int(last.rsplit('_', 1)[1])
  h.emit(op='list', prefix='ckpt', files=[entry(*f) for f in files],
         suffixes=req, error=e1 or e2 or e3, up=up or [], down=down or [],
         latest=step, latest_path_ok=last == f'{prefix}_{step}')
  if n % 10 == 0:
    before = sorted(os.listdir(d))
    given = [x for x in before if h.rng.random() < .8]
    selected = [x for x in before if h.rng.random() < .4]
    _, err = attempt(base.remove_checkpoints,
                     [os.path.join(d, x) for x in given],
                     lambda p: os.path.basename(p) in selected)
    h.emit(op='remove', before=before, given=given, selected=selected,
           left=sorted(os.listdir(d)), error=err)
  shutil.rmtree(d)
for p in ('ckpt', 'ckpt_1', 'ckpt_1.data', '/a/b.c/ckpt_12.index', 'x-y_3',
          'a-1-of-b_2', '/tmp/ckpt-0-of-3/foo_7.data', 'foo_bar_5', ''):
  for i, n in ((0, 1), (3, 10), (99999, 100000), (123456, 1000000)):
    h.emit(op='suffix', path=p,
           back=base.remove_shard_suffix(base.add_shard_suffix(p, i, n)),
           noop=base.remove_shard_suffix(p))
h.close()
os._exit(0)
