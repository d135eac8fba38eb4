"""Adversarial attacks."""
ASSUMPTIONS = ['The dataset of a whole run is given; the layers of vit_jax are replaced by stand-ins.']


def run(chk):
  chk.model('Attack', f'''SPECIFICATION Spec
CONSTANTS Updates={3 if chk.quick else 5} Far={3 if chk.quick else 5} Batches=2 Size=2
INVARIANTS InBox AtRest Within
PROPERTY Climbs
CHECK_DEADLOCK FALSE
''')
  cases = chk.generate('AttackGen')
  chk.judge('AttackTrace', chk.execute('attack.py', cases=cases, devices=2, shards=6))
