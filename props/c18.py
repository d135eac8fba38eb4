"""Few-shot evaluation."""
ASSUMPTIONS = ['The features are affine copies of one small integer, so that the '
               'least squares have a closed form; predictions closer than 5% of '
               'their terms are not decided.']


def run(chk):
  cfgs = [(4, 2, 2, 3)] + ([] if chk.quick else [(5, 2, 3, 3), (4, 3, 1, 2)])
  chk.model_many('FewShot', [(str(c), f'''SPECIFICATION Spec
CONSTANTS N={c[0]} Classes={c[1]} Rows={c[2]} MaxShot={c[3]}
INVARIANTS ValidOnly ShotsPerClass Nested
PROPERTY Ends
CHECK_DEADLOCK FALSE
''') for c in cfgs])
  cases = chk.generate('FewShotGen', f'MaxCount={3 if chk.quick else 4}')
  recs = chk.execute('fewshot.py', cases=cases, devices=2, shards=4)
  if recs[-1]['op'] != 'abort':
    for rr in chk.execute('fewshot.py', procs=2, devices=1, out='real.ndjson', cases=cases):
      recs += rr
  chk.judge('FewShotTrace', recs)
