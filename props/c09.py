"""Capacity of the experts."""
ASSUMPTIONS = ['Factors are dyadic so that the exact definition applies to '
               'floating point; ties of rounding to nearest may go either way.']


def run(chk):
  n = 12 if chk.quick else 24
  chk.model('Capacity', f'''SPECIFICATION Spec
CONSTANTS MaxTokens={n} MaxExperts=6 MaxNum=16 Den=8
 Modes={{"ceil","round"}} Mults={{0,1,3,4}}
INVARIANTS Enough Tight Multiple Positive ExactFit
PROPERTY Monotone
CHECK_DEADLOCK FALSE
''')
  cases = chk.generate('CapacityGen', f'MaxTokens={40 if chk.quick else 120} '
                       'MaxExperts=9 Mults={0, 1, 2, 3, 4, 8}')
  recs = chk.execute('capacity.py', cases=cases)
  chk.judge('CapacityTrace', recs)
