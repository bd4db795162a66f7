"""Blocks."""
from typing import Union

import pyarrow as pa

Block = Union[pa.Table]


class BlockMetadata:

  def __init__(self, num_rows=None, size_bytes=None, schema=None,
               input_files=None, exec_stats=None):
    self.num_rows = num_rows
    self.size_bytes = size_bytes
    self.schema = schema
    self.input_files = input_files
    self.exec_stats = exec_stats
