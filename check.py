#!/usr/bin/env python3
"""check.py <PROPERTY> [quick|thorough]: runs the check of one property."""
import importlib
import os
import shutil
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vlib import core  # pylint: disable=wrong-import-position


def main():
  prop = sys.argv[1]
  tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get(
      'VERIF_TIER', 'quick')
  os.environ['VERIF_TIER'] = tier
  seed = int(os.environ.get('VERIF_SEED', '1') or 1)
  mod = importlib.import_module('props.' + prop.lower())
  chk = core.Check(prop, tier, seed, getattr(mod, 'LEVEL', 'model_checking'))
  chk.assumptions = list(getattr(mod, 'ASSUMPTIONS', []))
  try:
    mod.run(chk)
    return chk.finish()
  except Exception:  # pylint: disable=broad-except
    traceback.print_exc()
    shutil.rmtree(chk.scratch, ignore_errors=True)
    return 2


if __name__ == '__main__':
  sys.exit(main())
