"""Evaluation."""
ASSUMPTIONS = ['Losses and sums are small integers, exact in float32.',
               'Every data set has a valid example; the loss of padding is finite.']


def run(chk):
  cfgs = [(2, 2, 4, 2), (1, 3, 5, 3)] + ([] if chk.quick else [(3, 2, 5, 1), (2, 3, 6, 2)])
  chk.model_many('Evaluate', [(str(c), f'''SPECIFICATION Spec
CONSTANTS Rows={c[0]} MaxBatches={c[1]} MaxStep={c[2]} Every={c[3]}
INVARIANTS ExactlyOnce SameSeeds CurrentParams WhenDue
PROPERTY Ends
CHECK_DEADLOCK FALSE
''') for c in cfgs])
  cases = chk.generate('EvaluateGen', f'MaxCells={6 if chk.quick else 9}')
  recs = chk.execute('evaluate.py', cases=cases, devices=4, shards=3)
  if recs[-1]['op'] != 'abort':
    for rr in chk.execute('evaluate.py', procs=2, devices=2, out='real.ndjson', cases=cases):
      recs += rr
  chk.judge('EvaluateTrace', recs)
