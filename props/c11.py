"""Soft routing."""
ASSUMPTIONS = ['Weights are observed through the bfloat16 transfer of the dispatcher '
               '(three significant digits); log-ratios within 0.02.',
               'Slot similarity maxima are compared with at least 0 (the masked diagonal).']


def run(chk):
  cfgs = [(2, 2, 2, 2), (3, 2, 2, 1)] if chk.quick else [(2, 2, 3, 3), (3, 2, 2, 2), (2, 3, 2, 2)]
  chk.model_many('SoftMoE', [(f'T={t} S={s} A={a} X={x}', f'''SPECIFICATION Spec
CONSTANTS T={t} S={s} A={a} X={x}
INVARIANTS Convex Equivariant
CHECK_DEADLOCK FALSE
''') for t, s, a, x in cfgs])
  chk.judge('SoftMoETrace', chk.execute('soft.py', cases=chk.generate('SoftMoEGen')))
