"""Discovery and removal of checkpoints."""
ASSUMPTIONS = ['Directories contain no file with the bare prefix and no step '
               '(the code rejects those explicitly).']


def run(chk):
  for keep in ('TRUE', 'FALSE'):
    n = '{1, 2, 10}' if chk.quick else '{1, 2, 9, 10}'
    chk.model('CkptNames', f'''SPECIFICATION Spec
CONSTANTS Steps = {n} NShards = 2 Keep = {keep}
INVARIANTS NeverLosesLast ReportedIsWhole
CHECK_DEADLOCK FALSE
''', name=f'steps={n} prune={keep}')
  cases = chk.generate('CkptNamesGen')
  recs = chk.execute('ckpt_names.py', cases=cases)
  chk.judge('CkptNamesTrace', recs)
