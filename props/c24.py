"""Mixup."""
ASSUMPTIONS = ['Weights are observed to 10^-6; two independent draws are never equal.']


def run(chk):
  cfgs = [(2, 2, 2, 3), (2, 3, 2, 2)] + ([] if chk.quick else [(2, 2, 3, 3), (1, 4, 3, 3), (2, 3, 2, 4)])
  chk.model_many('Mixup', [(str(c), f'''SPECIFICATION Spec
CONSTANTS Dev={c[0]} Per={c[1]} Size={c[2]} Den={c[3]}
INVARIANTS Convex SameDevice OwnLargest Preserved
CHECK_DEADLOCK FALSE
''') for c in cfgs])
  recs = []
  for d in (1, 4):
    cases = chk.generate('MixupGen', f'D={d} MaxPer={4 if d == 1 else 3}')
    recs += chk.execute('mixups.py', devices=d, cases=cases, shards=5, out=f'm{d}.ndjson')
    if recs[-1]['op'] == 'abort':
      break
  chk.judge('MixupTrace', recs)
