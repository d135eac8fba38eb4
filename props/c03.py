"""Crash atomicity and isolation of checkpoint saves."""
import os
import subprocess
from vlib import core

ASSUMPTIONS = [
    'A crash stops the process between (or inside) file operations; writes '
    'that completed are not reordered or lost (no power-loss model).']


def run(chk):
  for over in ('TRUE', 'FALSE'):
    n, k = ('{f1, f2, f3}', 2) if chk.quick else ('{f1, f2, f3, f4}', 2)
    chk.model('CkptFS', f'''SPECIFICATION Spec
CONSTANTS Files = {n} Overwrite = {over} MaxFaults = {k}
INVARIANTS Atomic OkMeansSaved ReportedMeansAll Isolated FaultReported
PROPERTY Ends
CHECK_DEADLOCK FALSE
''', name=f'{n} overwrite={over} faults={k}')
  vecs = chk.generate('CkptFSGen', 'NFiles=3 MaxOps=4')
  so = chk.path('fsfault.so')
  subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-o', so,
                  os.path.join(core.VERIF, 'native', 'fsfault.c'), '-ldl',
                  '-lpthread'], check=True)
  recs = chk.execute('ckpt_fs.py', cases=vecs, env={'LD_PRELOAD': so},
                     timeout=800)
  chk.judge('CkptFSTrace', recs)
