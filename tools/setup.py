#!/usr/bin/env python3
"""Checks that the tools the checks need are here, and parses the modules."""
import glob, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from vlib import core
mods = sorted(glob.glob(os.path.join(core.SPEC, '*.tla')))
p = subprocess.run(['java', '-DTLA-Library=' + core.SPEC, '-cp', core.CP,
                    'tla2sany.SANY', *mods], cwd='/tmp',
                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
if p.returncode:
  print(p.stdout[-4000:])
  sys.exit(1)
p = subprocess.run([core.PY, '-c', 'import jax, flax, vmoe.moe, vit_jax.models_vit'],
                   env=core.code_env(), cwd='/tmp')
sys.exit(p.returncode)
