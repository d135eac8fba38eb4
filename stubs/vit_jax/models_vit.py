"""Stand-in for vit_jax.models_vit (the subset vmoe uses)."""
from typing import Any, Callable, Optional, Tuple

import flax.linen as nn
import jax.numpy as jnp


class IdentityLayer(nn.Module):

  @nn.compact
  def __call__(self, x):
    return x


class AddPositionEmbs(nn.Module):
  posemb_init: Callable[..., Any]
  param_dtype: Any = jnp.float32

  @nn.compact
  def __call__(self, inputs):
    assert inputs.ndim == 3
    shape = (1, inputs.shape[1], inputs.shape[2])
    pe = self.param('pos_embedding', self.posemb_init, shape, self.param_dtype)
    return inputs + pe


class MlpBlock(nn.Module):
  mlp_dim: int
  dtype: Any = jnp.float32
  param_dtype: Any = jnp.float32
  out_dim: Optional[int] = None
  dropout_rate: float = 0.1
  kernel_init: Callable[..., Any] = nn.initializers.xavier_uniform()
  bias_init: Callable[..., Any] = nn.initializers.normal(stddev=1e-6)

  @nn.compact
  def __call__(self, inputs, *, deterministic):
    out_dim = inputs.shape[-1] if self.out_dim is None else self.out_dim
    x = nn.Dense(features=self.mlp_dim, dtype=self.dtype,
                 param_dtype=self.param_dtype, kernel_init=self.kernel_init,
                 bias_init=self.bias_init)(inputs)
    x = nn.gelu(x)
    x = nn.Dropout(rate=self.dropout_rate)(x, deterministic=deterministic)
    x = nn.Dense(features=out_dim, dtype=self.dtype,
                 param_dtype=self.param_dtype, kernel_init=self.kernel_init,
                 bias_init=self.bias_init)(x)
    x = nn.Dropout(rate=self.dropout_rate)(x, deterministic=deterministic)
    return x


class VisionTransformer(nn.Module):
  num_classes: int
  patches: Any = None
  transformer: Any = None
  hidden_size: int = 8
  representation_size: Optional[int] = None
  classifier: str = 'token'

  @nn.compact
  def __call__(self, inputs, *, train):
    x = inputs.reshape(inputs.shape[0], -1)
    x = nn.Dense(self.hidden_size, name='embedding')(x)
    return nn.Dense(self.num_classes, name='head')(x)
