"""Optimizers."""
ASSUMPTIONS = ['Gradients are small integers, factors are dyadic; clipping by norm, Adam and Adafactor within 3%.']


def run(chk):
  chk.model('OptChain', f'''SPECIFICATION Spec
CONSTANTS MaxG=2 Steps={2 if chk.quick else 3} Limit=3
INVARIANTS FrozenStay Bounded MomBounded
PROPERTY DecayCounts
CHECK_DEADLOCK FALSE
''')
  pats = chk.generate('RegexGen', 'MaxAtoms=2')
  chk.judge('OptChainTrace', chk.execute('optim.py', cases=pats, shards=6))
