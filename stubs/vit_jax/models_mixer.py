"""Stand-in for vit_jax.models_mixer (the subset vmoe uses)."""
from typing import Any

import flax.linen as nn


class MlpMixer(nn.Module):
  patches: Any = None
  num_classes: int = 1
  num_blocks: int = 1
  hidden_dim: int = 8
  tokens_mlp_dim: int = 8
  channels_mlp_dim: int = 8

  @nn.compact
  def __call__(self, inputs, *, train):
    x = inputs.reshape(inputs.shape[0], -1)
    x = nn.Dense(self.hidden_dim, name='stem')(x)
    return nn.Dense(self.num_classes, name='head')(x)
