"""Serialization round trips."""
ASSUMPTIONS = ['The chunk limits are lowered to a few bytes (the real ones are '
               '1 GiB); arrays use the native byte order.']


def run(chk):
  n = (9, 5, 12) if chk.quick else (20, 9, 40)
  chk.model('Serde', f'''SPECIFICATION Spec
CONSTANTS MaxItems={n[0]} MaxItemBytes={n[1]} MaxLimit={n[2]}
INVARIANTS PieceBound RoundTrip
PROPERTY Ends
CHECK_DEADLOCK FALSE
''')
  recs = chk.execute('serde.py', cases=chk.generate('SerdeGen'))
  chk.judge('SerdeTrace', recs)
