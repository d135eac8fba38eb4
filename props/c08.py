"""Expert-choice routing."""
ASSUMPTIONS = ['Equal gates may be ordered either way.']


def run(chk):
  cfgs = [(3, 2, 1, 2), (3, 2, 2, 2), (2, 3, 1, 1), (3, 2, 3, 2)]
  if not chk.quick:
    cfgs += [(4, 2, 2, 3), (3, 3, 2, 2), (4, 2, 3, 3)]
  chk.model_many('ExpertChoice', [(str(c), f'''SPECIFICATION Spec
CONSTANTS S={c[0]} E={c[1]} C={c[2]} MaxGate={c[3]}
INVARIANTS Capacity Sound Counts {'Unique' if c[0] * c[1] <= 6 else ''}
PROPERTY Terminates
CHECK_DEADLOCK FALSE
''') for c in cfgs])
  cases = []
  for S, E, M in [(2, 2, 3), (3, 2, 3), (2, 3, 3), (3, 3, 2), (4, 2, 2)]:
    gates = chk.generate('RoutingGen', f'S={S} E={E} M={M}')
    cases.append(dict(S=S, E=E, gates=gates, configs=list(range(1, S + 1)),
                      limit=600 if chk.quick else 8000))
  recs = chk.execute('expert_choice.py', cases=cases, timeout=700)
  chk.judge('ExpertChoiceTrace', recs, timeout=700)
