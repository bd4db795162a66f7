"""Interposition of every I/O, clock and randomness source of the code.

All patches are installed once per worker process and are inert outside
simulated threads (harness code, library internals).
"""
import builtins
import contextlib
import datetime as _dt
import glob as _glob
import io as _io
import os
import random
import shutil
import tempfile
import time as _time
import uuid as _uuid

import numpy as np
import pyarrow as pa
import pyarrow.fs as pafs
import pyarrow.parquet as pq
import pyarrow.parquet.core as pqcore

from vsim.core import (EFFECT_FAULTS, SimCrash, current, harness,
                       injected_error, library)

_real_open = builtins.open
_real_io_open = _io.open
_os = {
    n: getattr(os, n) for n in ("rename", "replace", "remove", "unlink",
                                "mkdir", "makedirs", "rmdir", "link",
                                "symlink", "listdir", "open")
}
_path = {n: getattr(os.path, n) for n in ("exists", "isfile", "isdir")}
_real_glob = _glob.glob
_real_iglob = _glob.iglob
_real_uuid1 = _uuid.uuid1
_real_time_ns = _time.time_ns
_real_uuid4 = _uuid.uuid4
_real_time = _time.time
_real_sleep = _time.sleep

_tmp_counter = [0]
_getcwd = os.getcwd


def _sim_of(path):
  """(thread, sim) when the call must be simulated."""
  t = current()
  if t is None:
    return None, None
  if isinstance(path, os.PathLike):
    path = os.fspath(path)
  if not isinstance(path, str):
    return None, None
  if not path.startswith("/"):
    path = os.path.join(_getcwd(), path)
  if ".." in path or "//" in path or "/./" in path:
    path = os.path.normpath(path)
  if not path.startswith(t.sim.root):
    return None, None
  return t, t.sim


def plain(path):
  """The one spelling of a path that the harness uses."""
  return os.path.normpath(os.path.join(_getcwd(), path))


def _entry_location(path):
  """Location of a storage if path is its entry point."""
  path = str(path)
  d, b = os.path.split(path)
  if b.startswith("entrypoint") and not b.endswith(".tmp"):
    return os.path.dirname(plain(d))
  return None


class OpenFile:
  """An unclosed file of a simulated process; torn when the process dies."""

  def __init__(self, proc, path):
    self.proc = proc
    self.path = path
    proc.open_files[id(self)] = self

  def data(self):
    return None

  def tear(self, rng):
    data = self.data()
    if data is None:
      return
    n = rng.randrange(len(data) + 1) if data else 0
    raw_write(self.path, data[:n])

  def done(self):
    self.proc.open_files.pop(id(self), None)


def raw_write(path, data):
  try:
    with _real_open(path, "wb") as f:
      f.write(data)
  except FileNotFoundError:
    pass


def raw_append(path, data):
  with _real_open(path, "ab") as f:
    f.write(data)


def raw_read(path):
  with _real_open(path, "rb") as f:
    return f.read()


class SimOut:
  """A buffered output stream; data reaches the file at write points."""

  def __init__(self, t, path, text=False, append=False):
    self._t = t
    self._sim = t.sim
    self._path = path
    self._text = text
    self._buf = b""
    self._closed = False
    f = self._sim.point("create", path)
    if not append or not _path["exists"](path):
      with _real_open(path, "wb"):
        pass
    else:
      self._buf = raw_read(path)
    self._of = OpenFile(t.proc, path)
    self._of.data = lambda: self._buf
    if f is not None and f["kind"] in ("crash_torn", "err_torn"):
      f = dict(f, kind=f["kind"].replace("torn", "after"))
    self._sim.effect("create", path, f)

  def write(self, data):
    if self._text:
      data = data.encode("utf-8")
    data = bytes(data)
    f = self._sim.point("write", self._path)
    if f is not None and f["kind"] in ("crash_torn", "err_torn"):
      n = self._sim.rng("torn", self._path[-8:], len(data)).randrange(
          len(data) + 1)
      data = data[:n]
    self._buf += data
    raw_append(self._path, data)
    if f is not None and f["kind"].startswith("crash"):
      # What was written stays; nothing is buffered any more.
      self._of.done()
    self._sim.effect("write", self._path, f)
    return len(data)

  def flush(self):
    pass

  def fileno(self):
    raise OSError("no file descriptor in simulation")

  def close(self):
    if self._closed:
      return
    self._closed = True
    if self._t.proc.dead:
      return
    f = self._sim.point("close", self._path)
    self._of.done()
    self._sim.effect("close", self._path, f)

  @property
  def closed(self):
    return self._closed

  def writable(self):
    return True

  def readable(self):
    return False

  def tell(self):
    return len(self._buf)

  def __enter__(self):
    return self

  def __exit__(self, et, ev, tb):
    if et is not None:
      # Closing after an error has no further effect on the file.
      self._closed = True
      if not self._t.proc.dead:
        self._of.done()
      return False
    self.close()
    return False


_RealLocalFS = pafs.LocalFileSystem


class SimLocalFS(_RealLocalFS):
  """LocalFileSystem with simulated scheduling and faults."""

  def create_dir(self, path, recursive=True):
    t, sim = _sim_of(path)
    if t is None:
      return super().create_dir(path, recursive=recursive)
    f = sim.point("mkdir", path)
    with library(t):
      super().create_dir(path, recursive=recursive)
    sim.effect("mkdir", path, f)

  def get_file_info(self, paths_or_selector):
    p = paths_or_selector
    t, sim = _sim_of(p if isinstance(p, str) else (
        p[0] if isinstance(p, (list, tuple)) and p else getattr(
            p, "base_dir", None)))
    if t is None:
      return super().get_file_info(p)
    loc = _entry_location(p) if isinstance(p, str) else None
    if loc:
      sim.entry_read(t, loc)
    sim.point("stat", p if isinstance(p, str) else "")
    with library(t):
      return super().get_file_info(p)

  def open_output_stream(self, path, *args, **kwargs):
    t, _ = _sim_of(path)
    if t is None:
      return super().open_output_stream(path, *args, **kwargs)
    return SimOut(t, path)

  def open_append_stream(self, path, *args, **kwargs):
    t, _ = _sim_of(path)
    if t is None:
      return super().open_append_stream(path, *args, **kwargs)
    return SimOut(t, path, append=True)

  def _open_in(self, name, path, args, kwargs):
    t, sim = _sim_of(path)
    fn = getattr(super(), name)
    if t is None:
      return fn(path, *args, **kwargs)
    loc = _entry_location(path)
    if loc:
      sim.entry_read(t, loc)
    sim.point("read", path)
    with library(t):
      return fn(path, *args, **kwargs)

  def open_input_file(self, path, *args, **kwargs):
    return self._open_in("open_input_file", path, args, kwargs)

  def open_input_stream(self, path, *args, **kwargs):
    return self._open_in("open_input_stream", path, args, kwargs)

  def _two(self, kind, name, src, dst):
    t, sim = _sim_of(dst)
    fn = getattr(super(), name)
    if t is None:
      return fn(src, dst)
    f = sim.point(kind, dst)
    with library(t):
      fn(src, dst)
    _after_move(sim, t, kind, src, dst, f)

  def move(self, src, dest):
    return self._two("move", "move", src, dest)

  def copy_file(self, src, dest):
    t, sim = _sim_of(dest)
    if t is None:
      return super().copy_file(src, dest)
    # Not atomic: the target is there before its content.
    sim.point("read", src)
    data = raw_read(src)
    with SimOut(t, dest) as f:
      f.write(data)
    return None

  def _del(self, name, path, *args, **kwargs):
    t, sim = _sim_of(path)
    fn = getattr(super(), name)
    if t is None:
      return fn(path, *args, **kwargs)
    f = sim.point("delete", path)
    with library(t):
      fn(path, *args, **kwargs)
    sim.effect("delete", path, f)

  def delete_file(self, path):
    return self._del("delete_file", path)

  def delete_dir(self, path):
    return self._del("delete_dir", path)

  def delete_dir_contents(self, path, *args, **kwargs):
    return self._del("delete_dir_contents", path, *args, **kwargs)


def _after_move(sim, t, kind, src, dst, f):
  loc = _entry_location(dst)
  try:
    if kind == "move":
      for h in sim.effect_hooks:
        with harness():
          h("unlink_src", plain(str(src)), t)
    sim.effect(kind, dst, f)
  finally:
    if loc:
      sim.release_sections(t.proc, loc)


# ------------------------------------------------------------------- parquet
_RealParquetWriter = pq.ParquetWriter


class SimParquetWriter(_RealParquetWriter):
  """ParquetWriter whose bytes reach the file at row group boundaries."""

  def __init__(self, where, schema, *args, **kwargs):
    t, sim = _sim_of(where)
    self._vt = t
    if t is None:
      super().__init__(where, schema, *args, **kwargs)
      return
    self._vsim = sim
    self._vpath = os.fspath(where)
    self._vbuf = _io.BytesIO()
    self._vflushed = 0
    self.is_open = False
    f = sim.point("create", self._vpath)
    with library(t):
      super().__init__(self._vbuf, schema, *args, **kwargs)
    with _real_open(self._vpath, "wb"):
      pass
    self._vof = OpenFile(t.proc, self._vpath)
    self._vof.data = self._vbuf.getvalue
    if f is not None and f["kind"] in ("crash_torn", "err_torn"):
      f = dict(f, kind=f["kind"].replace("torn", "after"))
    sim.effect("create", self._vpath, f)

  def _vflush(self, f, kind):
    data = self._vbuf.getvalue()
    new = data[self._vflushed:]
    if f is not None and f["kind"] in ("crash_torn", "err_torn"):
      n = self._vsim.rng("torn", self._vpath[-8:], len(data)).randrange(
          len(new) + 1)
      new = new[:n]
      self._vof.done()
    elif f is not None and f["kind"].startswith("crash"):
      self._vof.done()
    raw_append(self._vpath, new)
    self._vflushed = len(data)
    self._vsim.effect(kind, self._vpath, f)

  def _vcall(self, fn, *args, **kwargs):
    t = current()
    if self._vt is None or t is None:
      return fn(*args, **kwargs)
    f = self._vsim.point("write", self._vpath)
    with library(t):
      r = fn(*args, **kwargs)
    self._vflush(f, "write")
    return r

  def write_table(self, *args, **kwargs):
    return self._vcall(super().write_table, *args, **kwargs)

  def write_batch(self, *args, **kwargs):
    return self._vcall(super().write_batch, *args, **kwargs)

  def close(self):
    t = current()
    if self._vt is None:
      return super().close()
    if t is None:
      return None
    if not self.is_open:
      return None
    f = self._vsim.point("close", self._vpath)
    with library(t):
      super().close()
    self._vof.done()
    self._vflush(f, "close")
    return None

  def __exit__(self, *args):
    if args and args[0] is not None and self._vt is not None:
      return False
    self.close()
    return False

  def __del__(self):
    # Garbage collection never has I/O effects.
    if getattr(self, "_vt", None) is None:
      super().__del__()


def _wrap_read(fn, site="read"):

  def wrapped(source, *args, **kwargs):
    first = source
    if isinstance(source, (list, tuple)) and source:
      first = source[0]
    t, sim = _sim_of(first)
    if t is None:
      return fn(source, *args, **kwargs)
    if first is source:
      sim.point(site, source)
    else:
      for s in source:
        sim.point(site, s)
    with library(t):
      return fn(source, *args, **kwargs)

  wrapped.__wrapped__ = fn
  return wrapped


# -------------------------------------------------------------- array record
def _patch_array_record():
  from array_record.python import array_record_module as ar
  from array_record.python import array_record_data_source as ards
  real_writer, real_reader = ar.ArrayRecordWriter, ar.ArrayRecordReader

  class SimArrayRecordWriter:

    def __init__(self, path, *args, **kwargs):
      t, sim = _sim_of(path)
      self._t = t
      if t is None:
        self._w = real_writer(path, *args, **kwargs)
        return
      self._sim = sim
      self._path = path
      _tmp_counter[0] += 1
      self._stage = sim.root + f".stage{_tmp_counter[0] % 4096}"
      f = sim.point("create", path)
      with library(t):
        self._w = real_writer(self._stage, *args, **kwargs)
      if not os.path.isdir(os.path.dirname(path)):
        raise RuntimeError(f"cannot create {path}")
      with _real_open(path, "wb"):
        pass
      self._open = True
      self._of = OpenFile(t.proc, path)
      self._of.data = self._tear_data
      if f is not None and f["kind"] in ("crash_torn", "err_torn"):
        f = dict(f, kind=f["kind"].replace("torn", "after"))
      sim.effect("create", path, f)

    def _tear_data(self):
      try:
        self._w.close()
      except Exception:  # pylint: disable=broad-except
        pass
      try:
        data = raw_read(self._stage)
        _os["remove"](self._stage)
      except OSError:
        data = b""
      self._open = False
      return data

    def write(self, value):
      if self._t is not None and current() is not None:
        f = self._sim.point("ar_write", self._path)
        self._w.write(value)
        self._sim.effect("ar_write", self._path, f)
      else:
        self._w.write(value)

    def close(self):
      t = current()
      if self._t is None:
        return self._w.close()
      if t is None or not self._open:
        return None
      f = self._sim.point("close", self._path)
      self._of.done()
      data = self._tear_data()
      if f is not None and f["kind"] in ("crash_torn", "err_torn"):
        n = self._sim.rng("torn", self._path[-8:], len(data)).randrange(
            len(data) + 1)
        data = data[:n]
      raw_write(self._path, data)
      self._sim.effect("close", self._path, f)
      return None

    def ok(self):
      return self._w.ok()

    def is_open(self):
      return self._w.is_open()

    def __enter__(self):
      return self

    def __exit__(self, et, ev, tb):
      if et is None:
        self.close()
      return False

  def sim_reader(path, *args, **kwargs):
    t, sim = _sim_of(path)
    if t is None:
      return real_reader(path, *args, **kwargs)
    sim.point("read", path)
    with library(t):
      return real_reader(path, *args, **kwargs)

  ar.ArrayRecordWriter = SimArrayRecordWriter
  ar.ArrayRecordReader = sim_reader

  real_parallel = ards._run_in_parallel

  def run_in_parallel(function, list_of_kwargs_to_function, num_workers):
    if current() is None:
      return real_parallel(function, list_of_kwargs_to_function, num_workers)
    return [function(**k) for k in list_of_kwargs_to_function]

  ards._run_in_parallel = run_in_parallel


# ------------------------------------------------------------------ os-level
def _sim_open(real):

  def wrapped(file, mode="r", *args, **kwargs):
    t, sim = _sim_of(file)
    if t is None:
      return real(file, mode, *args, **kwargs)
    path = os.fspath(file)
    if kwargs.get("opener") is not None:
      # The opener knows the real name.
      return real(file, mode, *args, **kwargs)
    if any(c in mode for c in "wax"):
      if "x" in mode and _path["exists"](path):
        raise FileExistsError(path)
      return SimOut(t, path, text="b" not in mode, append="a" in mode)
    loc = _entry_location(path)
    if loc:
      sim.entry_read(t, loc)
    sim.point("read", path)
    return real(file, mode, *args, **kwargs)

  return wrapped


def _sim_os1(name, kind):
  real = _os[name]

  def wrapped(path, *args, **kwargs):
    t, sim = _sim_of(path)
    if t is None:
      return real(path, *args, **kwargs)
    f = sim.point(kind, path)
    with library(t):
      r = real(path, *args, **kwargs)
    if kind != "list":
      sim.effect(kind, path, f)
    return r

  return wrapped


def _sim_os2(name, kind):
  real = _os[name]

  def wrapped(src, dst, *args, **kwargs):
    t, sim = _sim_of(dst)
    if t is None:
      return real(src, dst, *args, **kwargs)
    f = sim.point(kind, dst)
    with library(t):
      r = real(src, dst, *args, **kwargs)
    _after_move(sim, t, kind, src, dst, f)
    return r

  return wrapped


def _sim_os_open(path, flags, *args, **kwargs):
  t, sim = _sim_of(path)
  if t is None:
    return _os["open"](path, flags, *args, **kwargs)
  if not flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
    sim.point("read", path)
    return _os["open"](path, flags, *args, **kwargs)
  f = sim.point("create", path)
  fd = _os["open"](path, flags, *args, **kwargs)
  try:
    sim.effect("create", path, f)
  except BaseException:
    os.close(fd)
    raise
  return fd


def _sim_path(name):
  real = _path[name]

  def wrapped(path):
    t, sim = _sim_of(path)
    if t is not None:
      loc = _entry_location(path)
      if loc:
        sim.entry_read(t, loc)
      sim.point("stat", path)
    return real(path)

  return wrapped


def _sim_glob(pattern, *args, **kwargs):
  t, sim = _sim_of(pattern)
  if t is None:
    return _real_glob(pattern, *args, **kwargs)
  sim.point("list", os.path.normpath(os.path.join(_getcwd(), pattern)))
  with library(t):
    r = sorted(_real_glob(pattern, *args, **kwargs))
  sim.rng("glob", len(r), sim.step).shuffle(r)
  return r


# ---------------------------------------------------------- clock and random
class _SimDateTimeModule:
  """Stands in for the datetime module inside protobuf's well known types."""

  def __getattr__(self, name):
    return getattr(_dt, name)

  class datetime(_dt.datetime):  # pylint: disable=invalid-name

    @classmethod
    def now(cls, tz=None):
      ts = _sim_time()
      return _dt.datetime.fromtimestamp(ts, tz)

    @classmethod
    def utcnow(cls):
      return cls.now(_dt.timezone.utc).replace(tzinfo=None)


# The simulator whose storages are being set up, outside simulated threads.
_setup = [None]


@contextlib.contextmanager
def setting_up(sim):
  """Clock and randomness of the setup also come from the seed."""
  _setup[0] = (sim, sim.rng("setup"))
  try:
    yield
  finally:
    _setup[0] = None


def _sim_uuid4():
  t = current()
  if t is None:
    if _setup[0]:
      return _uuid.UUID(int=_setup[0][1].getrandbits(128), version=4)
    return _real_uuid4()
  return _uuid.UUID(int=t.sim.uuid_rng.getrandbits(128), version=4)


def _sim_time():
  t = current()
  if t is None:
    return _setup[0][0].now if _setup[0] else _real_time()
  return t.sim.now + t.proc.skew


def _sim_time_ns():
  return int(_sim_time() * 10**9) if current() else _real_time_ns()


def _sim_uuid1(node=None, clock_seq=None):
  if current() is None and not _setup[0]:
    return _real_uuid1(node, clock_seq)
  return _sim_uuid4()


def _sim_iglob(pattern, *args, **kwargs):
  if _sim_of(pattern)[0] is None:
    return _real_iglob(pattern, *args, **kwargs)
  return iter(_sim_glob(pattern, *args, **kwargs))


def seed_libraries(seed):
  """The global generators of the libraries."""
  random.seed(seed)
  np.random.seed(seed % 2**32)


def time_zone(tz):
  """The local time zone of the machines."""
  os.environ["TZ"] = tz
  _time.tzset()


def _sim_sleep(secs):
  t = current()
  if t is None:
    _real_sleep(secs)
    return
  t.sim.now += secs
  t.sim.point("sleep")


_installed = False


def install():
  """Patch every seam; idempotent."""
  global _installed
  if _installed:
    return
  _installed = True
  pa.set_cpu_count(1)
  pa.set_io_thread_count(1)
  pafs.LocalFileSystem = SimLocalFS
  for m in (pq, pqcore):
    m.ParquetWriter = SimParquetWriter
    for n in ("read_table", "read_metadata", "read_schema"):
      setattr(m, n, _wrap_read(getattr(m, n)))
  real_ds, real_pf = pq.ParquetDataset, pq.ParquetFile

  class SimParquetDataset(real_ds):

    def __init__(self, source, *args, **kwargs):
      t, sim = _sim_of(source[0] if isinstance(source, (
          list, tuple)) and source else source)
      if t is None:
        super().__init__(source, *args, **kwargs)
        return
      for s in ([source] if isinstance(source, str) else source):
        sim.point("read", s)
      with library(t):
        super().__init__(source, *args, **kwargs)

  class SimParquetFile(real_pf):

    def __init__(self, source, *args, **kwargs):
      t, sim = _sim_of(source)
      if t is None:
        super().__init__(source, *args, **kwargs)
        return
      sim.point("read", source)
      with library(t):
        super().__init__(source, *args, **kwargs)

  for m in (pq, pqcore):
    m.ParquetDataset = SimParquetDataset
    m.ParquetFile = SimParquetFile
  _patch_array_record()
  builtins.open = _sim_open(_real_open)
  _io.open = _sim_open(_real_io_open)
  for n, k in (("remove", "delete"), ("unlink", "delete"), ("mkdir", "mkdir"),
               ("makedirs", "mkdir"), ("rmdir", "delete"), ("listdir", "list")):
    setattr(os, n, _sim_os1(n, k))
  for n, k in (("rename", "move"), ("replace", "move"), ("link", "copy"),
               ("symlink", "copy")):
    setattr(os, n, _sim_os2(n, k))
  os.open = _sim_os_open
  for n in _path:
    setattr(os.path, n, _sim_path(n))
  _glob.glob = _sim_glob
  _glob.iglob = _sim_iglob
  _uuid.uuid4 = _sim_uuid4
  _uuid.uuid1 = _sim_uuid1
  _time.time = _sim_time
  _time.time_ns = _sim_time_ns
  _time.sleep = _sim_sleep
  from google.protobuf.internal import well_known_types as wkt
  if hasattr(wkt, "datetime"):
    wkt.datetime = _SimDateTimeModule()


# ---------------------------------------------------------------- scratch dir
def scratch_base():
  base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
  return base


def make_root(tag):
  """A fresh scratch directory with a fixed-length path."""
  while True:
    name = f"{scratch_base()}/vs{random.SystemRandom().getrandbits(40):010x}"
    try:
      _os["mkdir"](name)
    except FileExistsError:
      continue
    return name


def drop_root(root):
  shutil.rmtree(root, ignore_errors=True)
  d, b = os.path.split(root)
  for n in _os["listdir"](d):
    if n.startswith(b + ".stage"):
      try:
        _os["remove"](os.path.join(d, n))
      except OSError:
        pass
