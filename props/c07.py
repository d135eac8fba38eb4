"""Dispatch and combine."""
ASSUMPTIONS = ['Reduced-precision transfers are compared within 1/64 relative.',
               'Acceptance is taken from routing each group on its own.']


def run(chk):
  n = (6, 4, 2) if chk.quick else (12, 6, 3)
  chk.model('Dispatch', f'''SPECIFICATION Spec
CONSTANTS MaxG={n[0]} MaxE={n[1]} MaxC={n[2]}
INVARIANTS Bijection RoundTrip
PROPERTY Ends
CHECK_DEADLOCK FALSE
''')
  cases = chk.generate(
      'DispatchGen', 'MaxG=8 MaxE=4 MaxC=3 Variants={"einsum", "indices", '
      '"items", "dense", "implicit", "einsum+bf16", "indices+bf16", '
      '"items+bf16", "einsum+eager", "indices+eager"}')
  recs = chk.execute('dispatch.py', cases=cases, devices=8, timeout=800)
  chk.judge('DispatchTrace', recs)
