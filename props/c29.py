"""Preprocessing expressions."""
ASSUMPTIONS = ['Images of up to 6x6 pixels; values compared to 0.0015; interpolation of integer images only where it is exact.']


def run(chk):
  chk.model('Preproc', f'''SPECIFICATION Spec
CONSTANTS MaxLen={2 if chk.quick else 3}
INVARIANTS AllOrNothing Resolved Finished Failed WellFormed
PROPERTIES Frame Kept
CHECK_DEADLOCK FALSE
''')
  cases = chk.generate('PreprocGen', 'MaxOps=2')
  chk.judge('PreprocTrace', chk.execute('preproc.py', cases=cases, shards=6))
