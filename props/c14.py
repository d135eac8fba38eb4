"""Axis resources by the first matching rule."""
ASSUMPTIONS = ['Patterns are drawn from anchored sequences of words, classes, '
               'any-character and any-text atoms.']


def run(chk):
  chk.model_many('AxisRules', [(f'{p} x {n}', f'''SPECIFICATION Spec
CONSTANTS Params={{{', '.join('"p%d"' % i for i in range(p))}}} NRules={n}
INVARIANT FirstOnly
PROPERTY Done
CHECK_DEADLOCK FALSE
''') for p, n in ([(2, 2), (2, 3)] if chk.quick else [(2, 3), (3, 2), (3, 3)])])
  pats = chk.generate('RegexGen', f'MaxAtoms={2 if chk.quick else 3}')
  chk.judge('AxisRulesTrace', chk.execute('axis_rules.py', cases=pats))
