"""Token-choice routing."""
import itertools

ASSUMPTIONS = ['Equal gates may be ordered either way.',
               'Gates are multiples of 1/1024, exact in float32.']


def routing_models(chk, unique=True):
  cfgs = [(2, 2, 2, 1, True, 3), (3, 2, 2, 1, False, 2), (3, 2, 1, 1, True, 3),
          (3, 2, 2, 2, True, 3), (2, 3, 2, 1, True, 3)]
  if not chk.quick:
    cfgs += [(3, 3, 2, 1, False, 2), (3, 3, 3, 2, True, 2),
             (4, 2, 2, 2, True, 2), (4, 2, 1, 3, True, 3)]
  chk.model_many('Routing', [(f'S={S} E={E} K={K} C={C} BPR={B} M={M}', f'''SPECIFICATION Spec
CONSTANTS S={S} E={E} K={K} C={C} BPR={str(B).upper()} MaxGate={M}
 CheckUnique={str(unique and S * E <= 6).upper()}
INVARIANTS Capacity OneSlotEach Sound Unique
PROPERTY Terminates
CHECK_DEADLOCK FALSE
''') for S, E, K, C, B, M in cfgs])


def run(chk):
  routing_models(chk)
  cases = []
  sizes = [(2, 2, 3), (3, 2, 3), (2, 3, 3), (3, 3, 2), (4, 2, 2)]
  for S, E, M in sizes:
    gates = chk.generate('RoutingGen', f'S={S} E={E} M={M}')
    configs = [(K, C, B, n) for K, C, B, n in itertools.product(
        range(1, E + 1), range(1, S + 1), (False, True), ('einsum', 'indices'))
               if C < S or K == E]
    limit = len(gates) if (S, E) == (2, 2) else (240 if chk.quick else 2400)
    cases.append(dict(S=S, E=E, gates=gates, configs=configs, limit=limit))
  recs = chk.execute('routing.py', cases=cases, timeout=700)
  chk.judge('RoutingTrace', recs, timeout=700)
