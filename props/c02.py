"""Sharded checkpoints partition arrays among files."""
from props import c01

ASSUMPTIONS = c01.ASSUMPTIONS + [
    'Files are attributed to processes by saving to one directory each.']


def run(chk):
  c01.models(chk)
  chk.judge('ShardedCkptTrace', c01.drive(chk, 'save'))
