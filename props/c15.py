"""Evaluation and training input pipelines."""
ASSUMPTIONS = ['Processes are told apart by jax.process_index and process_count; '
               'the examples of a split are those TFDS reads for it.']


def run(chk):
  cfgs = [(4, 2, 2), (4, 3, 2), (5, 2, 3)] + ([] if chk.quick else [(6, 3, 2), (7, 2, 2), (5, 4, 2)])
  chk.model_many('EvalPipeline', [(str(c), f'''SPECIFICATION Spec
CONSTANTS MaxN={c[0]} P={c[1]} B={c[2]}
INVARIANTS NoRepeat AllSeen StepCount
PROPERTY Ends
CHECK_DEADLOCK FALSE
''') for c in cfgs])
  cases = chk.generate('EvalPipelineGen', f'MaxN={16 if chk.quick else 23}')
  chk.judge('EvalPipelineTrace', chk.execute('eval_pipeline.py', cases=cases, timeout=700, shards=5))
