"""Gates, noise and auxiliary losses of the routers."""
ASSUMPTIONS = ['Losses are compared within 2e-3 (exact rationals on the '
               'specification side); noise statistics within 25% over 500 '
               'samples; the load loss within 3e-2 + 8% over 4096 items.']


def run(chk):
  cfgs = [(2, 3, 4), (3, 3, 3)] if chk.quick else [(2, 4, 8), (3, 3, 4), (4, 2, 4)]
  chk.model_many('RouterLoss', [(f'E={e} W={w} items={n}', f'''SPECIFICATION Spec
CONSTANTS E={e} W={w} MaxItems={n}
INVARIANTS Total Bounds ZeroIffBalanced Symmetric GshardOfBalanced
CHECK_DEADLOCK FALSE
''') for e, w, n in cfgs])
  recs = chk.execute('routers.py', cases=chk.generate('RouterLossGen'))
  chk.judge('RouterLossTrace', recs)
