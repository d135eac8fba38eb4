"""Stand-in for vit_jax.checkpoint (the subset vmoe uses)."""
import flax.traverse_util
import numpy as np


def load(path):
  with open(path, 'rb') as fp:
    data = np.load(fp, allow_pickle=False)
    flat = {tuple(k.split('/')): data[k] for k in data.files}
  return flax.traverse_util.unflatten_dict(flat)
