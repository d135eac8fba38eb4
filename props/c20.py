"""The training loop, killed and started again."""
ASSUMPTIONS = ['A kill leaves the files as they are at that moment.',
               'The batches do not depend on where training resumes.']


def run(chk):
  cfgs = [(4, 3, 2, 2, 1)] if chk.quick else [(5, 3, 2, 3, 2), (7, 4, 3, 2, 1)]
  chk.model_many('TrainLoop', [(str(c), f'''SPECIFICATION Spec
CONSTANTS MaxT={c[0]} MaxEvery={c[1]} MaxKeep={c[2]} MaxMult={c[3]} MaxCrashes={c[4]}
INVARIANTS NoStepLost InRange OnlyDue DoneMeansAll BoundedLoss
PROPERTIES NeverBack Ends
CHECK_DEADLOCK FALSE
''') for c in cfgs])
  cases = chk.generate('TrainLoopGen', f'MaxT={6 if chk.quick else 9}')
  chk.judge('TrainLoopTrace', chk.execute('train_loop.py', cases=cases, shards=6))
