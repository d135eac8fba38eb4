"""Ensemble members."""
import itertools

ASSUMPTIONS = ['Equal gates may be ordered either way.',
               'Members are compared with the ordinary model (noise off) within 1e-3.',
               'The ViT library is replaced by a stand-in (MLP block, position embedding).']


def run(chk):
  cfgs = [(2, 2, 2, 1, 1, False, 2), (2, 1, 2, 1, 1, True, 3), (2, 2, 1, 2, 1, True, 2)]
  if not chk.quick:
    cfgs += [(2, 2, 2, 2, 1, True, 2), (3, 1, 2, 1, 1, True, 2), (2, 2, 2, 2, 1, True, 3), (2, 2, 3, 1, 2, False, 2), (3, 2, 1, 1, 1, True, 2)]
  chk.model_many('Ensemble', [(f'M={m} Em={e} T={t} K={k} C={c} BPR={b}', f'''SPECIFICATION Spec
CONSTANTS M={m} Em={e} T={t} K={k} C={c} BPR={str(b).upper()} MaxGate={g}
INVARIANTS OwnBlock NonInterference Sound
CHECK_DEADLOCK FALSE
''') for m, e, t, k, c, b, g in cfgs])
  cases = []
  for M, Em, T, W in ((2, 2, 2, 4), (3, 2, 1, 8), (2, 3, 1, 5)):
    groups = chk.generate('EnsembleGen', f'M={M} Em={Em} T={T} W={W}')
    configs = [c for c in itertools.product(
        range(1, Em + 1), range(1, T + 1), (False, True), ('einsum', 'indices'))]
    if chk.quick:
      configs = configs[chk.seed % 2::2] if len(configs) > 8 else configs[::2] + configs[1::4]
    cases.append(dict(M=M, Em=Em, T=T, groups=groups, configs=configs))
  chk.judge('EnsembleTrace', chk.execute('ensemble.py', cases=cases, timeout=700))
