"""Data sources."""
from typing import Any


class Datasource:

  def create_reader(self, **read_args):
    raise NotImplementedError


class Reader:

  def get_read_tasks(self, parallelism):
    raise NotImplementedError


class ReadTask:

  def __init__(self, read_fn, metadata):
    self._read_fn = read_fn
    self.metadata = metadata

  def get_metadata(self):
    return self.metadata

  def __call__(self):
    for block in self._read_fn():
      yield block


WriteResult = Any
