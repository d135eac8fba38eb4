"""Sharded checkpoints restore what was saved."""
ASSUMPTIONS = ['Device regions requested by a sharding are those which JAX '
               'computes for it.']
CFGS = [('H=2 W=3 NProc=1 NShard=2 MaxChunk=2'), ('H=2 W=2 NProc=2 NShard=3 MaxChunk=2'),
        ('H=1 W=4 NProc=2 NShard=3 MaxChunk=2')]
MORE = ['H=2 W=3 NProc=2 NShard=3 MaxChunk=2', 'H=2 W=4 NProc=1 NShard=3 MaxChunk=4',
        'H=1 W=6 NProc=2 NShard=2 MaxChunk=2', 'H=3 W=2 NProc=2 NShard=2 MaxChunk=1']


def models(chk):
  cfgs = CFGS + ([] if chk.quick else MORE)
  chk.model_many('ShardedCkpt', [(c, f'''SPECIFICATION Spec
CONSTANTS {c}
INVARIANTS Tiling ChunkSize Owned Balanced Restored
PROPERTY Done
CHECK_DEADLOCK FALSE
''') for c in cfgs])


def drive(chk, part):
  cases = chk.generate('ShardedCkptGen')
  k = 1 if chk.quick else 8
  recs = []
  runs = [(1, 8, 36 * k), (2, 4, 12 * k), (4, 2, 10 * k)]
  for procs, dev, n in runs:
    import random
    sub = list(cases)
    random.Random(chk.seed * 31 + procs).shuffle(sub)
    sub = sub[:3 * n + 3]
    out = chk.execute('ckpt.py', ['--part', part], devices=dev, procs=procs,
                      cases=sub, env={'VERIF_N': str(n)}, timeout=800,
                      out=f'{part}{procs}.ndjson')
    for rr in ([out] if procs == 1 else out):
      recs += rr
    if recs[-1]['op'] == 'abort':
      break
  return recs


def run(chk):
  models(chk)
  chk.judge('ShardedCkptTrace', drive(chk, 'restore'))
