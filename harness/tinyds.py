"""A small real TFDS dataset in a scratch directory."""
import os

import numpy as np
import tensorflow_datasets as tfds
import tensorflow_datasets.public_api as api


class Tiny(tfds.core.GeneratorBasedBuilder):
  VERSION = tfds.core.Version('1.0.0')
  SIZES = {'train': 40, 'test': 23}

  def _info(self):
    return tfds.core.DatasetInfo(builder=self, features=tfds.features.FeaturesDict({
        'image': tfds.features.Image(shape=(2, 2, 3)), 'id': np.int64,
        'labels': tfds.features.Sequence(np.int64),
        'label': np.int64}))

  def _split_generators(self, dl_manager):
    return {k: self._generate_examples(n) for k, n in self.SIZES.items()}

  def _generate_examples(self, n):
    for i in range(n):
      yield i, {'image': np.full((2, 2, 3), i, np.uint8), 'id': i,
                'labels': [] if i % 3 == 0 else [i, 1][:1 + i % 2],
                'label': i % 5}


def prepare(work, num_shards=3):
  """Makes tfds.builder return the dataset, whatever the name."""
  b = Tiny(data_dir=os.path.join(work, 'tfds'))
  b.download_and_prepare(download_config=tfds.download.DownloadConfig(
      num_shards=num_shards))
  b.download_and_prepare = lambda *a, **k: None
  api.builder = lambda *a, **k: b
  tfds.builder = lambda *a, **k: b
  return b


def members(b, split):
  return [int(x['id']) for x in b.as_dataset(split=split, shuffle_files=False)]
