"""Summaries of trees."""
ASSUMPTIONS = ['Arrays of up to 12 integers; norms and deviations within 1%.']


def run(chk):
  chk.model('Summaries', f'''SPECIFICATION Spec
CONSTANTS NLeaves=2 NRules={2 if chk.quick else 3} NShapes={5 if chk.quick else 7} Most=4
INVARIANTS OneEach Complete InOrder Bound RoundTrip
CHECK_DEADLOCK FALSE
''')
  pats = chk.generate('RegexGen', 'MaxAtoms=2')
  chk.judge('SummariesTrace', chk.execute('summaries.py', cases=pats, shards=6))
