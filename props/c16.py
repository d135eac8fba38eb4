"""Prefetching to devices."""
ASSUMPTIONS = ['The source is an iterator, asked by one consumer at a time.']


def run(chk):
  chk.model('Prefetch', f'''SPECIFICATION Spec
CONSTANTS MaxN={5 if chk.quick else 9} MaxSize={4 if chk.quick else 8}
INVARIANTS InOrder Ahead NoLoss EndsWithAll FailsOnlyByItself Filled
PROPERTY Ends
CHECK_DEADLOCK FALSE
''')
  cases = chk.generate('PrefetchGen', 'MaxN=%d MaxSize=%d' % ((5, 4) if chk.quick else (9, 8)))
  recs = chk.execute('prefetch.py', cases=cases, devices=4)
  if recs[-1]['op'] != 'abort':
    for rr in chk.execute('prefetch.py', procs=2, devices=2, out='real.ndjson', cases=[]):
      recs += rr
  chk.judge('PrefetchTrace', recs)
