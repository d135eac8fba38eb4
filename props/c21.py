"""Training steps."""
ASSUMPTIONS = ['Linear models with quadratic losses on integers; rounding to 1/4096.']


def run(chk):
  chk.model('TrainStep', f'''SPECIFICATION Spec
CONSTANTS MaxB={6 if chk.quick else 8} MaxSteps={3 if chk.quick else 4}
INVARIANTS Whole Fresh Secret
PROPERTIES OneUpdate Count SameAsWhole
CHECK_DEADLOCK FALSE
''')
  recs = []
  for d in (1, 4):
    cases = chk.generate('TrainStepGen', f'D={d} MaxPer={4 if chk.quick else 6}')
    recs += chk.execute('train_step.py', devices=d, cases=cases, shards=3, out=f't{d}.ndjson')
    if recs[-1]['op'] == 'abort':
      break
  chk.judge('TrainStepTrace', recs)
