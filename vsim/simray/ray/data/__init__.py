"""Simulated Ray Data: lazily evaluated block pipelines run by tasks."""
import builtins

import numpy as np
import pyarrow as pa

import ray
from vsim.core import current


def _block_to_batch(table):
  out = {}
  for name in table.column_names:
    col = table.column(name)
    typ = col.type
    if pa.types.is_integer(typ) or pa.types.is_floating(
        typ) or pa.types.is_boolean(typ):
      out[name] = col.to_numpy() if hasattr(col, "to_numpy") else np.asarray(
          col)
    else:
      vals = col.to_pylist()
      arr = np.empty(len(vals), dtype=object)
      for i, v in enumerate(vals):
        arr[i] = v
      out[name] = arr
  return out


def _batch_to_block(batch, like=None):
  if isinstance(batch, pa.Table):
    return batch
  names = list(batch.keys())
  arrays = []
  for n in names:
    v = batch[n]
    if isinstance(v, np.ndarray):
      arrays.append(pa.array(v.tolist()) if v.dtype == object or
                    v.dtype.kind in "SU" else pa.array(v))
    else:
      arrays.append(pa.array(list(v)))
  return pa.table(dict(zip(names, arrays)))


def _apply(table, stages):
  for kind, arg in stages:
    if table.num_rows == 0 and (kind in ("map", "filter") or (
        kind in ("select", "drop") and not set(arg) <= set(
            table.column_names))):
      continue  # An empty block makes no batches.
    if kind == "map":
      fn, batch_size = arg
      n = 1024 if batch_size == "default" else (batch_size or
                                                max(table.num_rows, 1))
      outs = []
      for s in builtins.range(0, table.num_rows, n):
        outs.append(_batch_to_block(fn(_block_to_batch(table.slice(s, n)))))
      table = pa.concat_tables(outs)
    elif kind == "filter":
      keep = [bool(arg(r)) for r in table.to_pylist()]
      table = table.filter(pa.array(keep, pa.bool_()))
    elif kind == "select":
      table = table.select(arg)
    elif kind == "drop":
      table = table.drop(arg)
    elif kind in ("row", "rows"):
      if table.num_rows == 0:
        continue
      rows = [arg(r) for r in table.to_pylist()]
      if kind == "rows":
        rows = [r for l in rows for r in l]
      table = pa.Table.from_pylist(rows)
  return table


def _read_block(read_fn, stages):
  """Runs in a worker: one read task and its fused transforms."""
  return [_apply(b, stages) for b in read_fn()]


_read_block_remote = ray.remote(_read_block)


def _ref_block(table, stages):
  return [_apply(table, stages)] if table is not None else []


_ref_block_remote = ray.remote(_ref_block)


class Dataset:
  """A dataset: sources plus a pipeline of stages."""

  def __init__(self, sources, stages=()):
    # sources: list of ("read", fn) | ("ref", ObjectRef) | ("block", table)
    self._sources = list(sources)
    self._stages = list(stages)

  def _with(self, *stage):
    return Dataset(self._sources, self._stages + [stage])

  def map_batches(self, fn, batch_size="default", **kwargs):
    return self._with("map", (fn, batch_size))

  def filter(self, fn, **kwargs):
    return self._with("filter", fn)

  def select_columns(self, cols, **kwargs):
    return self._with("select", list(cols))

  def drop_columns(self, cols, **kwargs):
    return self._with("drop", list(cols))

  def map(self, fn, **kwargs):
    return self._with("row", fn)

  def flat_map(self, fn, **kwargs):
    return self._with("rows", fn)

  def union(self, *others):
    blocks = []
    for ds in (self,) + others:
      blocks.extend(("block", b) for b in ds._blocks())
    return Dataset(blocks)

  def limit(self, limit):
    out = []
    for b in self._blocks():
      if limit > 0 and b.num_rows:
        out.append(("block", b.slice(0, limit)))
        limit -= out[-1][1].num_rows
    return Dataset(out)

  def sort(self, key, descending=False, **kwargs):
    blocks = [b for b in self._blocks() if b.num_rows]
    if not blocks:
      return Dataset([])
    keys = [key] if isinstance(key, str) else key
    order = "descending" if descending else "ascending"
    return Dataset([("block",
                     pa.concat_tables(blocks).sort_by([(k, order)
                                                       for k in keys]))])

  def split(self, n, **kwargs):
    blocks = [("block", b) for b in self._blocks()]
    return [Dataset(blocks[i::n]) for i in builtins.range(n)]

  def iter_rows(self, **kwargs):
    for b in self._blocks():
      yield from b.to_pylist()

  def to_arrow_refs(self):
    return [ray.put(b) for b in self._blocks()]

  get_internal_block_refs = to_arrow_refs

  def columns(self, **kwargs):
    s = self.schema()
    return None if s is None else list(s.names)

  def _blocks(self):
    """Iterate blocks, in an arbitrary order chosen by the scheduler."""
    t = current()
    sources = list(self._sources)
    if t is not None and len(sources) > 1:
      t.sim.rng("blocks", t.tid, t.sim.step).shuffle(sources)
    refs = []
    for kind, s in sources:
      if kind == "read":
        refs.append(_read_block_remote.remote(s, self._stages))
      else:
        refs.append(_ref_block_remote.remote(s, self._stages))
    for r in refs:
      yield from ray.get(r)

  def iter_batches(self, *, batch_size=256, batch_format="default",
                   drop_last=False, **kwargs):
    for b in self._blocks():
      if batch_size is None:
        if b.num_rows:
          yield b if batch_format == "pyarrow" else _block_to_batch(b)
        continue
      for s in builtins.range(0, b.num_rows, batch_size):
        part = b.slice(s, batch_size)
        yield part if batch_format == "pyarrow" else _block_to_batch(part)

  def count(self):
    if not self._stages and self._sources:
      # As Ray does, what the read tasks say about their blocks is enough.
      known = [s.get_metadata().num_rows if kind == "read" else None
               for kind, s in self._sources]
      if all(n is not None for n in known):
        return sum(known)
    return sum(b.num_rows for b in self._blocks())

  def take(self, limit=20):
    rows = []
    for b in self._blocks():
      rows.extend(b.to_pylist())
    return rows[:limit]

  def take_all(self):
    return self.take(1 << 60)

  def num_blocks(self):
    return len(self._sources)

  def schema(self):
    for b in self._blocks():
      return b.schema
    return None

  def materialize(self):
    return Dataset([("block", b) for b in self._blocks()])

  def repartition(self, num_blocks, **kwargs):
    blocks = [b for b in self._blocks() if b.num_rows]
    if not blocks:
      return Dataset([])
    table = pa.concat_tables(blocks)
    num_blocks = max(1, num_blocks)
    n, k = table.num_rows, num_blocks
    cuts = [n * i // k for i in builtins.range(k + 1)]
    return Dataset([("block", table.slice(a, b - a))
                    for a, b in zip(cuts, cuts[1:])])


def read_datasource(datasource, *, parallelism=-1, ray_remote_args=None,
                    **read_args):
  reader = datasource.create_reader(**read_args)
  tasks = reader.get_read_tasks(parallelism)
  return Dataset([("read", t) for t in tasks])


def from_arrow_refs(refs):
  if not isinstance(refs, (list, tuple)):
    refs = [refs]
  return Dataset([("ref", r) for r in refs])


def from_items(items, **kwargs):
  return from_arrow(pa.Table.from_pylist(
      [i if isinstance(i, dict) else {"item": i} for i in items]))


def from_arrow(tables):
  if not isinstance(tables, (list, tuple)):
    tables = [tables]
  return Dataset([("block", t) for t in tables])
