"""MoE layers, encoders and models."""
ASSUMPTIONS = ['Expert MLPs are driven in the linear range of their activation.',
               'Models are compared within 1e-3 where no expert is over capacity.',
               'The ViT library is replaced by a stand-in (MLP block, position embedding).']


def run(chk):
  cfgs = [(2, 3, 2, 3), (3, 2, 3, 2), (2, 2, 3, 1)] if chk.quick else [
      (2, 3, 2, 4), (3, 2, 3, 3), (2, 2, 3, 1), (4, 3, 6, 4), (1, 7, 7, 3)]
  chk.model_many('MoeLayer', [(f'{n}x{l} by {s}, {b} blocks', f'''SPECIFICATION Spec
CONSTANTS Seqs={n} Length={l} Size={s} Blocks={b}
INVARIANTS Faithful Full Layers
CHECK_DEADLOCK FALSE
''') for n, l, s, b in cfgs])
  chk.judge('MoeLayerTrace', chk.execute('moe_layer.py', cases=chk.generate('MoeLayerGen')))
