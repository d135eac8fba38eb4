"""Initial and resumed training states."""
ASSUMPTIONS = ['Fresh values agree within 1e-5 between layouts.',
               'The library that loads ViT checkpoints is replaced by a stand-in; Orbax initialisation needs another Orbax.']


def run(chk):
  chk.model('InitState', f'''SPECIFICATION Spec
CONSTANTS Steps={3 if chk.quick else 5} Leaves={{1,2,3}} Cover={{1,2}}
INVARIANTS Uniform NeverBack OnlyCovered NoTorn
PROPERTY Progress
CHECK_DEADLOCK FALSE
''')
  cases = chk.generate('InitStateGen')
  chk.judge('InitStateTrace', chk.execute('init_state.py', cases=cases, devices=4, shards=7))
