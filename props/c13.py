"""Logical device meshes."""
ASSUMPTIONS = ['TPU devices are described by stand-ins with the attributes JAX '
               'gives them; CPU devices are real, of several processes.',
               'Every process owns an aligned block of the hardware mesh of the '
               'same shape.']


def run(chk):
  cfgs = [(2, 4, 4, 16), (3, 4, 2, 12 if chk.quick else 24)]
  if not chk.quick:
    cfgs += [(2, 6, 6, 36), (4, 4, 2, 16)]
  chk.model_many('Mesh', [(str(c), f'''SPECIFICATION Spec
CONSTANTS Axes={c[0]} MaxAxis={c[1]} MaxLocal={c[2]} MaxDevices={c[3]}
INVARIANTS Built Together NotRefused
PROPERTY Ends
CHECK_DEADLOCK FALSE
''') for c in cfgs])
  cases = chk.generate('MeshGen', f'MaxDevices={32 if chk.quick else 48}')
  recs = chk.execute('mesh.py', cases=cases)
  if recs[-1]['op'] != 'abort':
    for procs, dev in [(2, 4), (3, 2)]:
      for rr in chk.execute('mesh.py', procs=procs, devices=dev,
                            out=f'real{procs}.ndjson', cases=[]):
        recs += rr
  chk.judge('MeshTrace', recs)
