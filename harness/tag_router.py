"""A router whose routing is prescribed, for the MoE layer harness."""
from typing import Any

import flax.linen as nn
import jax.numpy as jnp
from vmoe import moe

state = {}


class TagRouter(nn.Module):
  num_experts: int
  deterministic: bool = False
  dtype: Any = None
  loss: float = 0.

  @nn.compact
  def __call__(self, inputs):
    state['shape'] = tuple(inputs.shape)
    state['deterministic'] = self.deterministic
    w = state.get('weights')
    if w is None:
      g, s, _ = inputs.shape
      w = jnp.ones((g, s, self.num_experts, 1)) / self.num_experts
    return moe.EinsumDispatcher(jnp.asarray(w)), {'auxiliary_loss': jnp.full((1,), self.loss)}
