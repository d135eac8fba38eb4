"""Mapping rules."""
ASSUMPTIONS = ['Names have no signs, points or exponents next to numbers.',
               'The library that loads ViT checkpoints is replaced by a stand-in.']


def run(chk):
  chk.model('Mapping', f'''SPECIFICATION Spec
CONSTANTS NSrc={2 if chk.quick else 3} NTgt=2 NRules=2
INVARIANTS Once InOrder ByFirst
CHECK_DEADLOCK FALSE
''')
  cases = chk.generate('MappingGen', f'MaxRules={2 if chk.quick else 3}')
  chk.judge('MappingTrace', chk.execute('mapping_rules.py', cases=cases, devices=2, shards=6))
