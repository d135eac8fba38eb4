"""Losses and predictions of ensembles."""
ASSUMPTIONS = ['Likelihoods are compared at a resolution of 1/10000.']


def run(chk):
  chk.model('EnsembleLoss', f'''SPECIFICATION Spec
CONSTANTS MaxB={4 if chk.quick else 8} MaxM={4 if chk.quick else 6}
INVARIANTS OwnLabel OnlyItsMembers AllMembers
PROPERTY Ends
CHECK_DEADLOCK FALSE
''')
  cases = chk.generate('EnsembleLossGen', 'MaxB=5 MaxM=4' if chk.quick else 'MaxB=8 MaxM=6')
  chk.judge('EnsembleLossTrace', chk.execute('ensemble_loss.py', cases=cases, shards=4))
