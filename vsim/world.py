"""The simulated deployment: clients, storages and the oracles.

Clients run the real library code inside simulated processes.  The oracle
watches every effect; the replacement of an entry point is the linearization
point of a commit, and is checked against the reference model at that instant.
"""
import collections
import hashlib
import json
import os
import sys

import pyarrow as pa
import pyarrow.compute as pc
import pyarrow.parquet as pq

from vsim import core
from vsim import io as sio
from vsim import model as M
from vsim.core import (HarnessError, Sim, SimCrash, StepLimit, current, h64,
                       harness, rng_of)

sys.path.insert(0, os.path.join(os.path.dirname(__file__), "simray"))


_loaded = [False]


def import_space():
  """Import the code under test from source, never from cached bytecode."""
  if _loaded[0]:
    return
  _loaded[0] = True
  # pylint: disable=import-outside-toplevel,unused-import
  import absl.logging
  import cloudpickle
  import numpy
  import pandas
  import pyroaring
  import google.protobuf.text_format
  import substrait.algebra_pb2
  import substrait.extended_expression_pb2
  from array_record.python import array_record_module
  from array_record.python import array_record_data_source
  old = sys.pycache_prefix, sys.dont_write_bytecode
  sys.pycache_prefix, sys.dont_write_bytecode = "/nonexistent-pycache", True
  try:
    import space
    import space.core.ops.read
    import space.core.random_access
    import space.core.views
    import space.core.transform.udfs
    import space.core.transform.join
    import space.ray.runners
    import space.ray.data_sources
    import space.catalogs.directory
  finally:
    sys.pycache_prefix, sys.dont_write_bytecode = old
  absl.logging.set_verbosity(absl.logging.FATAL)


class Violation:

  def __init__(self, kind, what, detail=""):
    self.kind = kind
    self.what = what
    self.detail = detail

  def as_dict(self):
    return {"kind": self.kind, "what": self.what, "detail": self.detail}


class Aborted(SimCrash):
  """The run stops after a violation."""


class Snap:

  def __init__(self, id_, rows, parent, dels, adds, msg, files, step):
    self.id = id_
    self.rows = rows  # list of row dicts
    self.parent = parent
    self.dels = dels  # Counter of primary keys
    self.adds = adds  # list of row dicts
    self.msg = msg
    self.files = files
    self.step = step


class Store:
  """Model of one storage location."""

  def __init__(self, name, path, schema, pks, recs):
    self.name = name
    self.path = path
    self.schema = schema
    self.pks = pks
    self.recs = recs
    self.exists = False
    self.snaps = {}
    self.refs = {}
    self.current = None
    self.used = set()
    self.raw_entry = None
    self.fixed = None  # schema, create time, type, plan
    self.metadata_file = None
    self.protected = {}  # path -> digest
    # History of (refs, current) after each commit; index = version number.
    self.states = []
    self.mv_of = None
    self.synced = None

  def head(self, branch):
    if branch == "main":
      return self.current
    r = self.refs.get(branch)
    return r[1] if r is not None and r[0] == "branch" else None

  def state(self):
    return (dict(self.refs), self.current)


class Inv:
  """One invocation of an operation."""

  def __init__(self, client, op, store):
    self.client = client
    self.op = op
    self.store = store
    self.commits = []  # list of new snapshot IDs or "ref"
    self.start = len(store.states) - 1 if store is not None else 0
    self.t0 = client.world.sim.now
    self.jumps = client.world.sim.clock_jumps
    self.result = None
    self.exc = None
    self.delta = None


class Client:

  def __init__(self, world, spec):
    self.world = world
    self.id = spec["id"]
    self.spec = spec
    self.ops = spec["ops"]
    self.pos = 0
    self.proc = None
    self.handles = {}
    self.branch = {}
    self.pending = None
    self.crashes = 0
    self.runs = 0


def expand(scenario):
  """The scenario with the rows of bulk operations written out."""

  def op(o):
    if "bulk" not in o:
      return o
    k, n, u = o["bulk"]
    return dict(o, rows=[[k + i, u + i] for i in range(n)])

  return dict(scenario, clients=[dict(c, ops=[op(o) for o in c["ops"]])
                                 for c in scenario["clients"]])


class World:

  def __init__(self, scenario):
    self.sc = scenario = expand(scenario)
    self.root = sio.make_root("w")
    self.base = os.path.join(self.root, scenario.get("place", ""))
    os.makedirs(self.base, exist_ok=True)
    self.sim = Sim(scenario, self.root)
    self.violations = []
    self.known = []
    self.stores = {}
    self.clients = {}
    self.probes = collections.Counter()
    self.aborted = False
    self.results = collections.Counter()
    self.schema_cache = {}
    self.seen_entry = {}
    self.p_reader = scenario.get("p_reader", 0.05)
    self._import()

  # ------------------------------------------------------------------ setup
  def _import(self):
    # pylint: disable=import-outside-toplevel
    sio.install()
    import_space()
    import space
    src = os.environ.get("VSIM_SRC", "/repo/python/src")
    if not os.path.abspath(space.__file__).startswith(src):
      raise HarnessError(f"space imported from {space.__file__}")
    from google.protobuf import text_format
    import space.core.proto.metadata_pb2 as meta
    from space.core.utils import errors
    from space.core.jobs import JobResult
    from space.core import options
    from space.core.storage import Storage
    self.space = space
    self.tf = text_format
    self.meta = meta
    self.errors = errors
    self.State = JobResult.State
    self.options = options
    self.Storage = Storage

  def schema(self, name):
    if name not in self.schema_cache:
      self.schema_cache[name] = M.Schema(name)
    return self.schema_cache[name]

  def path(self, name):
    return os.path.join(self.base, self.sc.get("dirs", {}).get(name, name))

  def file_options(self):
    fo = self.sc.get("fopts") or {}
    if self.sc.get("nofo") and not fo and "ar" not in self.sc:
      return None
    o = self.options
    r = o.FileOptions()
    if "rg" in fo:
      r.parquet_options.max_uncompressed_row_group_bytes = fo["rg"]
    if "file" in fo:
      r.parquet_options.max_uncompressed_file_bytes = fo["file"]
    if "rec" in fo:
      r.array_record_options.max_uncompressed_file_bytes = fo["rec"]
    if "ar" in self.sc:
      r.array_record_options.options = self.sc["ar"]
    return r

  def ray_options(self):
    ro = self.sc.get("ropts") or {}
    if ro.get("none"):
      return None
    return self.space.RayOptions(max_parallelism=ro.get("par", 2),
                                 enable_row_range_block=ro.get("rng", True))

  def setup(self):
    """Create the initial storages, outside the simulated time."""
    for s in self.sc.get("stores", []):
      sch = self.schema(s["schema"])
      st = Store(s["name"], self.path(s["name"]), sch, sch.pks, sch.recs)
      self.stores[s["name"]] = st
      if s.get("create", True):
        with_ds = self.space.Dataset.create(st.path, sch.arrow(), sch.pks,
                                            sch.recs)
        del with_ds
        self.on_created(st)
    for v in self.sc.get("views", []):
      src = self.stores[v["source"]]
      if not v.get("mv"):
        continue
      names = M.transform_names(v["transform"], src.schema.names)
      recs = M.transform_recs(v["transform"], src.schema.recs)
      st = Store(v["mv"], self.path(v["mv"]), src.schema, src.schema.pks, recs)
      st.names = names
      st.mv_of = v
      st.synced = 0
      self.stores[v["mv"]] = st
      ds = self.space.Dataset.load(src.path)
      M.build_view(v["transform"], ds, src.schema).materialize(st.path)
      self.on_created(st)
    self.make_external()

  def make_external(self):
    """Files of other systems to be loaded without copying."""
    self.external = {}
    for e in self.sc.get("external", []):
      d = self.path(e["dir"])
      os.makedirs(d, exist_ok=True)
      sch = self.schema(e["schema"])
      for i, f in enumerate(e["files"]):
        ext = "parquet" if e["kind"] == "pq" else "array_record"
        p = os.path.join(d, f"f{i}.{ext}")
        if e.get("nested"):
          p = os.path.join(d, f"d{i // 2}", f"f{i % 2}.{ext}")
          os.makedirs(os.path.dirname(p), exist_ok=True)
        if e["kind"] == "pq":
          order = e.get("order")
          names = [sch.names[j] for j in order] if order else None
          t = sch.table(f, names)
          pq.write_table(t, p, row_group_size=e.get("rg", 3),
                         write_statistics=e.get("stats", True))
        else:
          from array_record.python import array_record_module as ar
          w = ar.ArrayRecordWriter(p, options=e.get("ar", "group_size:1"))
          for k, u in f:
            w.write(sch.row(k, u)["r"])
          w.close()
        self.external[p] = digest(p)

  # ------------------------------------------------------------- violations
  def fail(self, kind, what, detail=""):
    self.violations.append(Violation(kind, what, str(detail)[:1500]))
    self.sim.emit("VIOLATION", kind, what)
    self.abort()

  def abort(self):
    if self.aborted:
      return
    self.aborted = True
    for p in self.sim.procs:
      p.dead = True
      p.open_files.clear()
    self.sim.mutex.clear()

  # --------------------------------------------------------------- raw state
  def read_entry(self, st):
    p = os.path.join(st.path, "metadata", "entrypoint.txtpb")
    try:
      return sio.raw_read(p)
    except (FileNotFoundError, NotADirectoryError):
      return None

  def parse_state(self, st, raw):
    """Parse the entry point and the metadata it refers to."""
    ep = self.tf.Parse(raw, self.meta.EntryPoint())
    if not ep.metadata_file:
      raise ValueError("entry point is empty")
    full = os.path.join(st.path, ep.metadata_file)
    md = self.tf.Parse(sio.raw_read(full), self.meta.StorageMetadata())
    if not md.snapshots:
      raise ValueError("metadata is empty")
    return ep.metadata_file, md

  def fresh_rows(self, st, version=None, branch=None):
    """Rows of a version read by a new process."""
    ds = self.space.Dataset.load(st.path)
    if branch not in (None, "main"):
      ds.set_current_branch(branch)
    return M.table_rows(ds.local().read_all(version=version))

  def names(self, st):
    return getattr(st, "names", None) or st.schema.names

  def check_schema(self, st, ds, who):
    """The schema, as a user sees it, is the one of the creation."""
    if not hasattr(ds, "schema"):
      ds = ds.storage if hasattr(ds, "storage") else ds
    schema = getattr(ds, "schema", None) or ds.logical_schema
    want = list(zip(self.names(st), self.types(st)))
    got = list(zip(schema.names, schema.types))
    self.probes["schemas_checked"] += 1
    if [n for n, _ in got] != [n for n, _ in want]:
      return self.fail("schema", f"{who} has other fields",
                       f"{st.name}: {[n for n, _ in got]} expected "
                       f"{[n for n, _ in want]}")
    for (n, a), (_, b) in zip(got, want):
      if b is not None and not same_type(a, b):
        return self.fail("schema", f"{who} has another type",
                         f"{st.name}: field {n!r} is {a}, not {b}")
    if list(ds.primary_keys) != list(st.pks):
      return self.fail("schema", f"{who} has other primary keys",
                       f"{st.name}: {ds.primary_keys} expected {st.pks}")
    if sorted(ds.record_fields) != sorted(st.recs):
      return self.fail("schema", f"{who} has other record fields",
                       f"{st.name}: {ds.record_fields} expected {st.recs}")
    return None

  def types(self, st):
    """The logical types, in field order."""
    if st.mv_of is None:
      return [st.schema.logical(n) for n in st.schema.names]
    return M.transform_types(st.mv_of["transform"], st.schema)

  def closure(self, st, snap_msg, check=True):
    """Files reachable from a snapshot; checks they are complete."""
    files = {}
    problems = []
    stats = {"rows": 0, "iu": 0, "ic": 0, "ru": 0}

    def full(p):
      return os.path.join(st.path, p)

    def add(p):
      try:
        files[full(p)] = digest(full(p))
        return True
      except OSError as e:
        problems.append(f"missing file {p}: {e}")
        return False

    data_files = []
    recs_used = collections.defaultdict(set)
    for mf in snap_msg.manifest_files.index_manifest_files:
      if not add(mf):
        continue
      try:
        t = pq.read_table(full(mf)).to_pylist()
      except Exception as e:  # pylint: disable=broad-except
        problems.append(f"unreadable manifest {mf}: {e!r}")
        continue
      for r in t:
        data_files.append(r)
        if not add(r["_FILE"]):
          continue
        try:
          pf = pq.read_table(full(r["_FILE"]))
        except Exception as e:  # pylint: disable=broad-except
          problems.append(f"unreadable data file {r['_FILE']}: {e!r}")
          continue
        if pf.num_rows != r["_NUM_ROWS"]:
          problems.append(
              f"manifest says {r['_NUM_ROWS']} rows, {r['_FILE']} has "
              f"{pf.num_rows}")
        stats["rows"] += r["_NUM_ROWS"]
        stats["iu"] += r["_INDEX_UNCOMPRESSED_BYTES"]
        stats["ic"] += r["_INDEX_COMPRESSED_BYTES"]
        self._check_minmax(st, r, pf, problems)
        for rf in st.recs:
          for a in pf.column(rf).to_pylist():
            recs_used[a["_FILE"]].add(a["_ROW_ID"])
    dup = [f for f, n in collections.Counter(
        d["_FILE"] for d in data_files).items() if n > 1 and
           full(f) not in self.external]
    if dup:
      problems.append(f"data file listed twice: {dup}")
    rec_rows = {}
    for mf in snap_msg.manifest_files.record_manifest_files:
      if not add(mf):
        continue
      for r in pq.read_table(full(mf)).to_pylist():
        rec_rows[r["_FILE"]] = r["_NUM_ROWS"]
        stats["ru"] += r["_UNCOMPRESSED_BYTES"]
    for f in sorted(set(recs_used) | set(rec_rows)):
      if not add(f):
        continue
      n = self._rec_count(full(f))
      if n is None:
        problems.append(f"unreadable record file {f}")
        continue
      if f in rec_rows and rec_rows[f] != n:
        problems.append(
            f"record manifest says {rec_rows[f]} rows, {f} has {n}")
      if recs_used.get(f) and max(recs_used[f]) >= n:
        problems.append(f"address beyond the end of {f}")
    if snap_msg.change_log_file:
      p = full(snap_msg.change_log_file)
      if add(snap_msg.change_log_file):
        try:
          cl = self.tf.Parse(sio.raw_read(p), self.meta.ChangeLog())
          for b in list(cl.added_rows) + list(cl.deleted_rows):
            add(b.file)
        except Exception as e:  # pylint: disable=broad-except
          problems.append(f"unreadable change log: {e!r}")
    return files, problems, stats

  def _rec_count(self, path):
    from array_record.python import array_record_module as ar
    try:
      r = ar.ArrayRecordReader(path)
      n = r.num_records()
      r.close()
      return n
    except Exception:  # pylint: disable=broad-except
      return None

  def _check_minmax(self, st, r, pf, problems):
    fid = {}
    for f in pf.schema:
      if f.metadata and b"PARQUET:field_id" in f.metadata:
        fid[f.name] = int(f.metadata[b"PARQUET:field_id"])
    for pk in st.pks:
      col = f"_STATS_f{fid[pk]}" if pk in fid else None
      if col is None:
        # External files have no field ids: use the position in the schema.
        continue
      s = r.get(col)
      if s is None or s["_MIN"] is None:
        continue
      vals = [v for v in pf.column(pk).to_pylist() if v is not None]
      if vals and (min(vals) < s["_MIN"] or max(vals) > s["_MAX"]):
        problems.append(
            f"column statistics of {pk} do not cover the file: "
            f"{str(s)[:120]} vs [{str(min(vals))[:40]}, {str(max(vals))[:40]}]")

  # ----------------------------------------------------------------- commits
  def on_created(self, st):
    raw = self.read_entry(st)
    st.raw_entry = raw
    mf, md = self.parse_state(st, raw)
    st.metadata_file = mf
    st.exists = True
    st.fixed = fixed_part(md)
    st.refs = {}
    st.current = md.current_snapshot_id
    for i, s in md.snapshots.items():
      st.snaps[i] = Snap(i, [], None, collections.Counter(), [],
                         s.SerializeToString(deterministic=True), {}, 0)
      st.used.add(i)
    st.states.append(st.state())

  def on_effect(self, kind, path, me):
    if self.aborted:
      return
    # Committed files never change.
    for st in self.stores.values():
      d = st.protected.get(path)
      if d is not None:
        now = digest_or_none(path)
        if now != d:
          return self.fail("immutable", "a file of a committed version changed "
                           "or disappeared",
                           f"{self.sim.rel(path)} by {kind}")
    d = self.external.get(path)
    if d is not None and digest_or_none(path) != d:
      return self.fail("extfile", "an external file was modified",
                       f"{self.sim.rel(path)} by {kind}")
    if kind == "unlink_src":
      return None
    for st in self.stores.values():
      raw = self.read_entry(st)
      if raw != st.raw_entry:
        self.on_commit(st, raw, me)
        if self.aborted:
          return None
    if self.p_reader and h64(self.sim.seed, "rd",
                             self.sim.step) % 10000 < self.p_reader * 10000:
      for st in self.stores.values():
        if st.exists:
          self.probes["reader_at_instant"] += 1
          self.check_state(st, "reader", light=True)
          if self.aborted:
            return None
    return None

  def on_commit(self, st, raw, me):
    try:
      return self.judge_commit(st, raw, me)
    except HarnessError:
      raise
    except Exception as e:  # pylint: disable=broad-except
      return self.fail("closure", "a committed version can't be understood",
                       trace_of(e))

  def judge_commit(self, st, raw, me):
    st.raw_entry = raw
    self.probes["commit_events"] += 1
    try:
      mf, md = self.parse_state(st, raw)
    except Exception as e:  # pylint: disable=broad-except
      return self.fail("atomic", "a reader at this instant finds no valid "
                       "version", f"{st.name}: {e!r}")
    client = self.clients.get(me.proc.root().pid)
    inv = client.pending if client is not None else None
    if not st.exists:
      return self.commit_create(st, mf, md, inv)
    if inv is None or inv.store is not st:
      return self.fail("spurious", "an operation changed a storage it does "
                       "not write", st.name)
    op = inv.op["op"]
    st.metadata_file = mf
    if fixed_part(md) != st.fixed:
      return self.fail("history", "schema or creation metadata changed by a "
                       "commit", op)
    old = set(st.snaps)
    new = set(md.snapshots)
    if old - new:
      return self.fail("lost", "a commit removed versions committed before",
                       f"{op} lost {sorted(old - new)}")
    for i in old:
      if md.snapshots[i].SerializeToString(
          deterministic=True) != st.snaps[i].msg:
        return self.fail("history", "a commit changed an existing version",
                         f"{op} changed snapshot {i}")
    refs = {
        k: ("branch" if r.type == self.meta.SnapshotReference.BRANCH else
            "tag", r.snapshot_id) for k, r in md.refs.items()
    }
    added = sorted(new - old)
    if op in ("tag", "branch", "untag", "unbranch"):
      return self.commit_ref(st, inv, md, refs, added)
    if op in DATA_OPS:
      return self.commit_data(st, inv, md, refs, added)
    if op == "refresh":
      return self.commit_refresh(st, inv, md, refs, added)
    return self.fail("spurious", "a read operation committed", op)

  def commit_create(self, st, mf, md, inv):
    if inv is None or inv.op["op"] not in ("create", "materialize"):
      return self.fail("create", "a storage appeared without a create call",
                       st.name)
    st.metadata_file = mf
    sch = self.schema(inv.op["schema"])
    for d in ("data", "metadata", "metadata/changes"):
      if not os.path.isdir(os.path.join(st.path, d)):
        return self.fail("create", "a created storage is not complete",
                         f"no {d}")
    st.schema, st.pks, st.recs = sch, sch.pks, sch.recs
    if inv.op["op"] == "materialize":
      v = inv.op
      st.names = M.transform_names(v["transform"], sch.names)
      st.recs = M.transform_recs(v["transform"], sch.recs)
      st.mv_of = v
      st.synced = 0
    if list(md.snapshots) != [0] or md.current_snapshot_id != 0 or md.refs:
      return self.fail("create", "a new storage is not empty", "")
    st.exists = True
    st.fixed = fixed_part(md)
    st.current = 0
    st.snaps[0] = Snap(0, [], None, collections.Counter(), [],
                       md.snapshots[0].SerializeToString(deterministic=True),
                       {}, self.sim.step)
    st.used.add(0)
    st.states.append(st.state())
    inv.commits.append(0)
    try:
      ds = self.space.Dataset.load(st.path)
      if ds.primary_keys != st.pks or sorted(ds.record_fields) != sorted(
          st.recs) or ds.schema.names != self.names(st):
        return self.fail("create", "a created storage has another schema",
                         f"{ds.schema}")
      self.check_schema(st, ds, "a new storage")
    except Exception as e:  # pylint: disable=broad-except
      return self.fail("create", "a created storage can't be loaded", repr(e))
    return None

  def commit_ref(self, st, inv, md, refs, added):
    op = inv.op
    name = op["name"]
    if added:
      return self.fail("refs", "a reference change added a version", op["op"])
    if md.current_snapshot_id != st.current:
      return self.fail("refs", "a reference change moved the main branch",
                       f"{op['op']} {st.current} -> {md.current_snapshot_id}")
    want = dict(st.refs)
    if op["op"] in ("tag", "branch"):
      if name in want:
        return self.fail("refs", "an existing reference was replaced", name)
      if name not in refs:
        return self.fail("refs", "reference not added", name)
      got = refs[name]
      if op["op"] == "branch":
        if inv.client.branch.get(st.name, "main") != "main":
          want[name] = ("branch", got[1])
        else:
          want[name] = ("branch", st.current)
      else:
        snap = inv.snap_id if inv.snap_id is not None else st.current
        want[name] = ("tag", snap)
        if (inv.snap_id is None and
            inv.client.branch.get(st.name, "main") != "main"):
          want[name] = ("tag", got[1])
    else:
      typ = "tag" if op["op"] == "untag" else "branch"
      if name not in want or want[name][0] != typ:
        return self.fail("refs", "removed a missing reference or one of "
                         "another kind", name)
      del want[name]
    if refs != want:
      return self.fail("refs", "references are not as requested",
                       f"{op['op']} {name}: {refs} expected {want}")
    for r in refs.values():
      if r[1] not in st.snaps:
        return self.fail("refs", "reference to a missing version", str(r))
    st.refs = refs
    st.states.append(st.state())
    inv.commits.append("ref")
    return None

  def expected_rows(self, st, inv, base):
    """(rows, deleted keys, added rows) of a data operation on base rows."""
    op = inv.op
    kind = op["op"]
    sch = st.schema
    if kind in ("append", "append_from"):
      rows = sch.rows(op_pairs(op))
      return base + rows, collections.Counter(), rows
    if kind in ("append_parquet", "append_ar"):
      e = next(x for x in self.sc["external"] if x["dir"] == op["dir"])
      rows = [r for f in e["files"] for r in sch.rows(f)]
      return base + rows, collections.Counter(), rows
    if kind == "insert":
      rows = sch.rows(op["rows"])
      return base + rows, collections.Counter(), rows
    if kind == "upsert":
      rows = sch.rows(op["rows"])
      keys = {sch.pk(r) for r in rows}
      gone = [r for r in base if sch.pk(r) in keys]
      keep = [r for r in base if sch.pk(r) not in keys]
      return (keep + rows, collections.Counter(sch.pk(r) for r in gone), rows)
    if kind == "delete":
      gone = [r for r in base if M.matches(op["filter"], r, sch)]
      keep = [r for r in base if not M.matches(op["filter"], r, sch)]
      return keep, collections.Counter(sch.pk(r) for r in gone), []
    raise HarnessError(kind)

  def commit_data(self, st, inv, md, refs, added):
    op = inv.op
    branch = inv.client.branch.get(st.name, "main")
    what = f"{op['op']} by {inv.client.id} on {branch}"
    if inv.commits:
      return self.fail("ack", "one operation committed twice", what)
    if len(added) != 1:
      return self.fail("history", "a commit must add one version",
                       f"{what} added {added}")
    nid = added[0]
    if nid in st.used or nid <= max(st.used):
      return self.fail("ids", "a version ID was reused or is not increasing",
                       f"{what}: {nid}")
    head = st.head(branch)
    snap = md.snapshots[nid]
    sim = self.sim
    skew = inv.client.proc.skew
    if (sim.clock_jumps == inv.jumps and not inv.t0 + skew - 1 <=
        snap.create_time.seconds <= sim.now + skew + 1):
      return self.fail("history", "the time of a version is not when it was "
                       "made", f"{what}: {snap.create_time.seconds} not in "
                       f"{inv.t0 + skew} .. {sim.now + skew}")
    if head is None:
      return self.fail("refs", "a commit to a removed branch took effect",
                       what)
    if snap.parent_snapshot_id != head or not snap.HasField(
        "parent_snapshot_id"):
      return self.fail("conflict", "a commit is not based on the latest "
                       "version of its branch",
                       f"{what}: parent {snap.parent_snapshot_id}, head {head}")
    want_refs = dict(st.refs)
    want_cur = st.current
    if branch == "main":
      want_cur = nid
    else:
      want_refs[branch] = ("branch", nid)
    if refs != want_refs or md.current_snapshot_id != want_cur:
      return self.fail("refs", "a commit moved other references",
                       f"{what}: {refs} main {md.current_snapshot_id} expected "
                       f"{want_refs} main {want_cur}")
    base = st.snaps[head].rows
    if op.get("bad"):
      return self.fail("ray" if inv.client.spec.get("ray") else "rows",
                       "rows that do not fit the schema were committed",
                       f"{what}: {op['bad']}")
    rows, dels, adds = self.expected_rows(st, inv, base)
    if op["op"] == "insert":
      keys = [st.schema.pk(r) for r in adds]
      if len(set(keys)) < len(keys) or set(keys) & {
          st.schema.pk(r) for r in base}:
        return self.fail("rows", "an insert added an existing primary key",
                         what)
    files, problems, stats = self.closure(st, snap)
    st.used.add(nid)
    old_cur, old_refs = st.current, st.refs
    del old_cur, old_refs
    st.current, st.refs = want_cur, want_refs
    st.snaps[nid] = Snap(nid, rows, head, dels, adds,
                         snap.SerializeToString(deterministic=True), files,
                         self.sim.step)
    st.protected.update(files)
    st.states.append(st.state())
    inv.commits.append(nid)
    inv.delta = len(rows) - len(base)
    if problems:
      return self.fail("closure" if any(
          ("missing" in p or "unreadable" in p) for p in problems) else
                       "record" if any("address" in p for p in problems) else
                       "rows" if any("twice" in p for p in problems) else
                       "minmax" if any("do not cover" in p for p in problems)
                       else "stats", "a committed version is incomplete",
                       f"{what}: {problems[:3]}")
    try:
      got = self.fresh_rows(st, version=nid)
    except Exception as e:  # pylint: disable=broad-except
      return self.fail("closure", "a committed version can't be read",
                       f"{what}: {e!r}")
    names = self.names(st)
    diff = compare(got, rows, names)
    if diff:
      if op["op"] == "delete" and M.not_over_pk(
          op["filter"], st.schema) and not diff_missing(
              got, rows, names) and not diff_missing(base, got, names):
        # Known finding: rows matching the filter are left in place.
        self.known.append("C08-not-over-primary-key")
        st.snaps[nid].rows = got
        gone = M.multiset(base, names) - M.multiset(got, names)
        byrow = {M.row_key(r, names): r for r in base}
        st.snaps[nid].dels = collections.Counter()
        for k, n in gone.items():
          st.snaps[nid].dels[st.schema.pk(byrow[k])] += n
        inv.delta = len(got) - len(base)
        rows = got
        diff = None
    if diff:
      kind = "ray" if inv.client.spec.get("ray") else "rows"
      if op["op"] == "append_ar" or op["op"] == "append_parquet":
        kind = "load"
      if self.is_record_only(got, rows, st):
        kind = "record"
      return self.fail(kind, "a committed version has other rows than the "
                       "operation should produce", f"{what}: {diff}")
    n = snap.storage_statistics.num_rows
    if n != len(rows) or stats["rows"] != len(rows):
      return self.fail("stats", "row counts in statistics are wrong",
                       f"{what}: statistics {n}, manifests {stats['rows']}, "
                       f"rows {len(rows)}")
    ss = snap.storage_statistics
    if (ss.index_uncompressed_bytes != stats["iu"] or
        ss.index_compressed_bytes != stats["ic"]):
      return self.fail("stats", "index bytes in statistics are not the sum of "
                       "the manifests", f"{what}: {ss} vs {stats}")
    if op["op"] != "append_ar" and not self.sc.get(
        "has_ar_load") and ss.record_uncompressed_bytes != stats["ru"]:
      return self.fail("stats", "record bytes in statistics are not the sum "
                       "of the manifests", f"{what}: {ss} vs {stats}")
    return None

  def is_record_only(self, got, rows, st):
    idx = [n for n in self.names(st) if n not in st.recs]
    return bool(st.recs) and not compare(got, rows, idx)

  # ------------------------------------------------------ materialized views
  def main_chain(self, st):
    """IDs from the first to the head of main."""
    out = []
    i = st.current
    while i is not None:
      out.append(i)
      i = st.snaps[i].parent
    return out[::-1]

  def commit_refresh(self, st, inv, md, refs, added):
    what = f"refresh by {inv.client.id}"
    if len(added) != 1:
      return self.fail("mv", "a refresh commit must add one version",
                       f"{added}")
    nid = added[0]
    snap = md.snapshots[nid]
    if nid <= max(st.used):
      return self.fail("ids", "a version ID was reused or is not increasing",
                       f"{what}: {nid}")
    if snap.parent_snapshot_id != st.current:
      return self.fail("mv", "a refresh is not based on the latest version of "
                       "the view", f"{snap.parent_snapshot_id} {st.current}")
    if refs != st.refs or md.current_snapshot_id != nid:
      return self.fail("mv", "a refresh moved other references", what)
    files, problems, _ = self.closure(st, snap)
    if problems:
      return self.fail("mv", "a view version is incomplete",
                       f"{what}: {problems[:3]}")
    try:
      got = self.fresh_rows(st, version=nid)
    except Exception as e:  # pylint: disable=broad-except
      return self.fail("mv", "a view version can't be read", repr(e))
    src = self.stores[st.mv_of["source"]]
    chain = [i for i in self.main_chain(src) if i > st.synced]
    names = self.names(st)
    match = None
    for i in chain:
      want = M.transform_rows(st.mv_of["transform"], src.snaps[i].rows)
      if not compare(got, want, names):
        match = i
        break
    if match is None:
      want = M.transform_rows(st.mv_of["transform"],
                              src.snaps[chain[0]].rows if chain else [])
      return self.fail("mv", "a view version is not the transform of any later "
                       "source version",
                       f"{what} after source version {st.synced}, expected one "
                       f"of {chain}: {compare(got, want, names)}")
    base = st.snaps[st.current].rows
    st.synced = match
    if nid in src.snaps and nid in chain and nid >= match:
      w = M.transform_rows(st.mv_of["transform"], src.snaps[nid].rows)
      if not compare(got, w, names):
        st.synced = nid
    st.used.add(nid)
    st.current = nid
    st.snaps[nid] = Snap(nid, got, snap.parent_snapshot_id,
                         collections.Counter(), [],
                         snap.SerializeToString(deterministic=True), files,
                         self.sim.step)
    st.protected.update(files)
    st.states.append(st.state())
    inv.commits.append(nid)
    inv.delta = (inv.delta or 0) + len(got) - len(base)
    return None

  # ------------------------------------------------------------- state checks
  def check_state(self, st, kind, light=False, all_snaps=False):
    """A new process must find exactly the committed state."""
    names = self.names(st)
    try:
      ds = self.space.Dataset.load(st.path)
      if not light:
        self.check_schema(st, ds, "a dataset loaded later")
      md = ds.storage.metadata
      if md.current_snapshot_id != st.current:
        return self.fail(kind, "a new reader finds another current version",
                         f"{st.name}: {md.current_snapshot_id} expected "
                         f"{st.current}")
      got_refs = {k: r.snapshot_id for k, r in md.refs.items()}
      want_refs = {k: r[1] for k, r in st.refs.items()}
      if got_refs != want_refs:
        return self.fail(kind, "a new reader finds other references",
                         f"{got_refs} expected {want_refs}")
      if set(ds.storage.snapshot_ids) != set(st.snaps):
        return self.fail(kind, "a new reader finds other versions",
                         f"{sorted(ds.storage.snapshot_ids)} expected "
                         f"{sorted(st.snaps)}")
      ids = {st.current}
      if not light:
        ids |= {r[1] for r in st.refs.values()}
      if all_snaps:
        ids = set(st.snaps)
      for i in sorted(ids):
        got = M.table_rows(ds.local().read_all(version=i))
        diff = compare(got, st.snaps[i].rows, names)
        if diff:
          return self.fail(kind, "a new reader finds other rows",
                           f"{st.name} snapshot {i}: {diff}")
    except Exception as e:  # pylint: disable=broad-except
      if self.aborted:
        return None
      return self.fail(kind, "a new reader fails", f"{st.name}: {e!r}")
    return None

  def on_crash(self, proc):
    if self.aborted or proc.parent is not None:
      return
    self.probes["crash_checks"] += 1
    for st in self.stores.values():
      if st.exists:
        self.check_state(st, "atomic")
      elif self.read_entry(st) is not None:
        self.fail("create", "a storage exists after a failed create", st.name)
      if self.aborted:
        return

  # --------------------------------------------------------------------- run
  def run(self):
    sim = self.sim
    sio.seed_libraries(h64("lib", self.sim.seed))
    sio.time_zone(self.sc.get("tz", "UTC"))
    cwd = os.getcwd()
    try:
      with sio.setting_up(sim):
        self.setup()
      if self.sc.get("cwd") is not None:
        # The processes' working directory, relative to the storages'.
        os.chdir(os.path.join(self.base, self.sc["cwd"]))
      sim.effect_hooks.append(self.on_effect)
      sim.crash_hooks.append(self.on_crash)
      stuck = self.prelude()
      if not stuck and not self.aborted and not sim.step_limited:
        for spec in self.sc["clients"]:
          c = Client(self, spec)
          self.clients[c.id] = c
          self.start_client(c)
        stuck = sim.run()
      if not self.aborted and not sim.step_limited:
        if stuck:
          self.fail("progress", "operations never finish", str(stuck))
        else:
          self.finale()
      if sim.step_limited and not self.aborted:
        self.fail("progress", "operations never finish",
                  f"more than {sim.max_steps} steps")
      self.final_checks()
    finally:
      os.chdir(cwd)
      sio.time_zone("UTC")
      sio.drop_root(self.root)
    for k, n in sim.point_counts.items():
      self.probes["point:" + k] += n
    return self

  def prelude(self):
    """Operations of one process before the clients start, without faults."""
    ops = self.sc.get("prelude")
    if not ops:
      return False
    c = Client(self, {"id": "i", "ops": ops, "ray": False})
    self.clients["i"] = c
    self.start_client(c)
    return self.sim.run()

  def start_client(self, c):
    proc = self.sim.new_proc(c.id)
    proc.skew = c.spec.get("skew", 0.0)
    self.probes["skewed_clocks"] += bool(proc.skew)
    c.proc = proc
    c.handles = {}
    c.runners = {}
    c.branch = {}
    c.pending = None
    c.between = None
    c.runs += 1
    self.sim.spawn(proc, lambda: self.client_main(c, proc),
                   tid=f"{c.id}#{c.runs}")

  def client_main(self, c, proc):
    try:
      while c.pos < len(c.ops):
        op = c.ops[c.pos]
        c.pos += 1
        self.run_op(c, proc, op)
        if op.get("retry") and c.last_failed and not self.aborted:
          again = dict(op, i=op["i"] + 5000, retry=0)
          again.pop("bad", None)
          self.probes["retries"] += 1
          self.run_op(c, proc, again)
        if self.aborted:
          return
      proc.op_index = -1
    except SimCrash:
      if self.aborted:
        raise
      # Restart: a new process continues with the next operation.
      c.crashes += 1
      self.probes["restarts"] += 1
      self.start_client(c)
      raise

  def meanwhile(self, c, op):
    """Operations of the same client in the middle of one of its operations."""
    ops = op.get("between")
    if not ops or c.between is not None:
      return
    p = c.proc
    attrs = ("op_index", "op_points", "workers_in_op", "faulted_in_op",
             "commit_locs", "serial_op", "op_done")
    saved = {a: getattr(p, a) for a in attrs}
    reads, pending = dict(p.ep_reads), c.pending
    c.between = op
    for k, o in enumerate(ops):
      self.probes["nested_operations"] += 1
      self.run_op(c, p, dict(o, i=op["i"] + 2000 + 100 * k))
    c.between = None
    for a in attrs:
      setattr(p, a, saved[a])
    p.ep_reads.clear()
    p.ep_reads.update(reads)
    c.pending, c.last_failed = pending, False

  def run_op(self, c, proc, op):
    sim = self.sim
    proc.op_index = op["i"]
    proc.op_points = 0
    proc.workers_in_op = 0
    proc.faulted_in_op = False
    proc.op_done = False
    proc.ep_reads.clear()
    st = self.stores.get(op.get("on", ""))
    inv = Inv(c, op, st)
    inv.existed = st is not None and st.exists
    inv.branch = c.branch.get(st.name, "main") if st is not None else "main"
    c.pending = inv
    c.last_failed = False
    if op["op"] in DATA_OPS or op["op"] == "refresh":
      proc.commit_locs = (st.path,)
      proc.serial_op = False
    elif op["op"] in ("tag", "branch", "untag", "unbranch", "create",
                      "materialize"):
      proc.commit_locs = (st.path,)
      proc.serial_op = True
    else:
      proc.commit_locs = ()
      proc.serial_op = False
    sim.emit("OP", c.id, op["i"], op["op"])
    inv.commits_at_start = len(st.states) if st is not None else 0
    sim.point("op")
    try:
      inv.result = getattr(self, "do_" + op["op"])(c, op, st, inv)
    except Exception as e:  # pylint: disable=broad-except
      if isinstance(e, HarnessError):
        raise
      inv.exc = e
    proc.op_done = True
    sim.release_sections(proc)
    with harness():
      self.judge(c, op, st, inv)
      if getattr(c, "final", False) and not self.aborted:
        self.judge(c, op, st, inv, self.judge_final)
    c.pending = None
    sim.emit("END", c.id, op["i"], self.outcome(inv))
    if self.aborted:
      raise Aborted()

  def outcome(self, inv):
    if inv.exc is not None:
      return "exc:" + type(inv.exc).__name__
    s = getattr(inv.result, "state", None)
    if s is not None:
      return s.name
    return "ok"

  # ---------------------------------------------------------------- handles
  def spelled(self, c, path):
    """The location as this client writes it."""
    d, b = os.path.split(path)
    style = c.spec.get("spell")
    self.probes["spelled_locations"] += bool(style)
    return {None: path, "slash": path + "/", "double": f"{d}//{b}",
            "dot": f"{d}/./{b}", "dots": f"{path}/../{b}",
            "relative": os.path.relpath(path)}[style]

  def handle(self, c, st, mv=False):
    h = c.handles.get(st.name)
    if h is None:
      if mv or st.mv_of is not None:
        from space.core.views import MaterializedView
        h = MaterializedView.load(st.path)
      else:
        h = self.space.Dataset.load(self.spelled(c, st.path))
      c.handles[st.name] = h
      c.branch[st.name] = "main"
    return h

  def runner(self, c, st):
    h = self.handle(c, st)
    if self.sc.get("hold"):
      # Work through one long-lived runner object.
      held = c.runners.get(st.name)
      if held is not None and held[0] is h:
        return held[1]
    r = (h.ray(self.ray_options(), self.file_options())
         if c.spec.get("ray") else h.local(self.file_options()))
    c.runners[st.name] = (h, r)
    return r

  # ----------------------------------------------------------- data operations
  def call(self, op, fn, **args):
    """Call with positional or keyword arguments."""
    if (self.sc["seed"] + op["i"]) % 4 == 0:
      return fn(**args)
    return fn(*args.values())

  def serialized(self, c, st, op, table):
    """The rows, their features serialized by the dataset."""
    ser = self.handle(c, st).storage.serializer()
    data = {}
    for n in table.column_names:
      f = st.schema.features(n)
      if f:
        data[n] = [f.value(u)[0] for _, u in op["rows"]]
    for n, vs in ser.serialize(data).items():
      i = table.schema.get_field_index(n)
      vs = [M.stable_example(v) for v in vs]
      self.probes["values_serialized"] += len(vs)
      table = table.set_column(i, n, pa.array(vs, pa.binary()))
    return table

  def table(self, st, op, names=None, c=None):
    t = st.schema.table(op["rows"], names)
    if op.get("ser") and c is not None:
      t = self.serialized(c, st, op, t)
    if op.get("bad"):
      return M.spoil(t, op["bad"])
    return M.reform(t, op.get("form"))

  def do_append(self, c, op, st, inv):
    r = self.runner(c, st)
    order = op.get("order")
    names = [st.schema.names[j] for j in order] if order else None
    return self.call(op, r.append, data=self.table(st, op, names, c))

  def do_append_from(self, c, op, st, inv):
    r = self.runner(c, st)
    bad = op.get("bad")
    fns = [TableSource(st.schema.name, s, op.get("form"),
                       bad if bad and bad["at"][0] == i else None)
           for i, s in enumerate(op["sources"])]
    if op.get("between") and not c.spec.get("ray") and fns:
      fns[-1] = Interrupted(fns[-1], lambda: self.meanwhile(c, op))
    return self.call(op, r.append_from, source_fns=(
        fns if len(fns) != 1 or op.get("aslist") else fns[0]))

  def pattern(self, op, name):
    p = os.path.join(self.path(op["dir"]), name)
    if any(e["dir"] == op["dir"] and e.get("nested")
           for e in self.sc["external"]):
      p = os.path.join(self.path(op["dir"]), "*", name)
    return os.path.relpath(p) if op.get("relative") else p

  def do_append_parquet(self, c, op, st, inv):
    h = self.handle(c, st)
    return self.call(op, h.local(self.file_options()).append_parquet,
                     pattern=self.pattern(op, "*.parquet"))

  def do_append_ar(self, c, op, st, inv):
    h = self.handle(c, st)
    return self.call(op, h.local(self.file_options()).append_array_record,
                     pattern=self.pattern(op, "*.array_record"),
                     index_fn=ar_index)

  def do_insert(self, c, op, st, inv):
    return self.call(op, self.runner(c, st).insert,
                     data=self.table(st, op, c=c))

  def do_upsert(self, c, op, st, inv):
    return self.call(op, self.runner(c, st).upsert,
                     data=self.table(st, op, c=c))

  def do_delete(self, c, op, st, inv):
    return self.call(op, self.runner(c, st).delete,
                     filter_=M.to_expr(op["filter"], st.schema))

  # ------------------------------------------------------------ references
  def pick_snap(self, st, op):
    if op.get("snap") is None:
      return None
    if op.get("nosuch"):
      return max(st.used, default=0) + 1000 + op["snap"]
    ids = sorted(st.snaps) or [0]
    return ids[op["snap"] % len(ids)]

  def do_tag(self, c, op, st, inv):
    inv.snap_id = self.pick_snap(st, op)
    h = self.handle(c, st)
    return h.add_tag(op["name"], inv.snap_id)

  def do_untag(self, c, op, st, inv):
    return self.handle(c, st).remove_tag(op["name"])

  def do_branch(self, c, op, st, inv):
    return self.handle(c, st).add_branch(op["name"])

  def do_unbranch(self, c, op, st, inv):
    return self.handle(c, st).remove_branch(op["name"])

  def do_checkout(self, c, op, st, inv):
    h = self.handle(c, st)
    h.storage.reload()
    h.set_current_branch(op["name"])
    c.branch[st.name] = op["name"]
    return None

  def do_reopen(self, c, op, st, inv):
    c.handles.pop(st.name, None)
    self.handle(c, st)
    return None

  def do_schema(self, c, op, st, inv):
    from space.core.views import MaterializedView
    if op.get("cat"):
      return self.catalog(c).dataset(st.name)
    if op.get("mv"):
      return MaterializedView.load(self.spelled(c, st.path))
    return self.space.Dataset.load(self.spelled(c, st.path))

  def do_reload(self, c, op, st, inv):
    return self.handle(c, st).storage.reload()

  def do_versions(self, c, op, st, inv):
    h = self.handle(c, st)
    h.storage.reload()
    return h.versions()

  # ----------------------------------------------------------------- reads
  def version_arg(self, st, op):
    v = op.get("ver")
    if v is None:
      return None
    if v[0] == "none":
      return max(st.used, default=0) + 1000 + v[1]
    if v[0] == "id":
      ids = sorted(st.snaps) or [0]
      return ids[v[1] % len(ids)]
    return v[1]

  def do_read(self, c, op, st, inv):
    r = self.runner(c, st)
    inv.version = self.version_arg(st, op)
    f = op.get("filter")
    kw = {"filter_": None if f is None else M.to_expr(f, st.schema),
          "fields": op.get("fields"),
          "reference_read": bool(op.get("refread")),
          "batch_size": op.get("batch")}
    if op.get("rayds") and c.spec.get("ray"):
      storage = self.handle(c, st).storage
      storage.reload()
      v = inv.version
      it = self.ray_tables("rayread", storage.ray_dataset(
          self.ray_options() or self.space.RayOptions(),
          self.options.ReadOptions(
              snapshot_id=None if v is None else
              storage.version_to_snapshot_id(v), **kw)))
    else:
      it = r.read(version=inv.version, **kw)
    tables = []
    if op.get("early"):
      self.meanwhile(c, op)
    for t in it:
      tables.append(t)
      if op.get("slow"):
        self.sim.point("app")
      if len(tables) == 1 and not op.get("early"):
        self.meanwhile(c, op)
    if op.get("refread"):
      tables = [self.resolve_refs(st, t) for t in tables]
    if op.get("deser"):
      ser = self.handle(c, st).storage.serializer()
      tables = [self.of_read(st, t, ser.deserialize(t.to_pydict()))
                for t in tables]
    inv.tables = tables
    return None

  def of_read(self, st, table, data):
    """The table of which these are the deserialized rows."""
    for i, n in enumerate(table.column_names):
      if n in st.schema.serialized():
        vs = [st.schema.value_of_read(n, v) for v in data[n]]
        self.probes["values_deserialized"] += len(vs)
        bad = next((v for v in vs if not isinstance(v, bytes)), None)
        if bad is not None:
          # No value that was ever written.
          vs = [v if isinstance(v, bytes) else repr(v).encode() for v in vs]
        table = table.set_column(i, n, pa.array(vs, pa.binary()))
      elif data[n] != table.column(n).to_pylist():
        self.fail("value", "deserializing changes other fields", n)
    return table

  def resolve_refs(self, st, table):
    from space.core.ops.read import read_record_column
    cols = {}
    for n in table.column_names:
      if n in st.recs:
        cols[n] = read_record_column(self.Storage.load(st.path),
                                     table.select([n]), n)
      else:
        cols[n] = table.column(n)
    return pa.table(cols)

  def do_read_all(self, c, op, st, inv):
    r = self.runner(c, st)
    inv.version = self.version_arg(st, op)
    f = op.get("filter")
    t = r.read_all(filter_=None if f is None else M.to_expr(f, st.schema),
                   fields=op.get("fields"), version=inv.version,
                   batch_size=op.get("batch"))
    inv.tables = [t] if t is not None else []
    return None

  def do_random_access(self, c, op, st, inv):
    from space.core.random_access import RandomAccessDataSource
    h = self.handle(c, st)
    h.storage.reload()
    fields = {n: h.storage for n in op["fields"]}
    if op.get("by_path"):
      fields = {n: st.path for n in op["fields"]}
    inv.version = None
    deser = bool(op.get("deser"))
    ds = RandomAccessDataSource(
        fields, deserialize=deser,
        use_array_record_data_source=bool(op.get("ar")))
    n = len(ds)
    out = []
    rng = self.sim.rng("ra", op["i"])
    order = list(range(n))
    rng.shuffle(order)
    vals = [None] * n
    one = order[:n // 2]
    many = order[n // 2:]
    for i in one:
      vals[i] = ds[i]
    if many:
      for i, v in zip(many, columns(ds.__getitems__(many))):
        vals[i] = v
    single = len(op["fields"]) == 1

    def record(v):
      r = {op["fields"][0]: v} if single else dict(v)
      if deser:
        # As the bytes of the values that were serialized.
        r = {f: st.schema.value_of_read(f, x) for f, x in r.items()}
      return r

    vals = [record(v) for v in vals]
    out = list(vals)
    inv.records = out
    inv.length = n
    inv.moved = None
    if n:
      # Every position keeps its record, however it is asked for.
      again = [rng.randrange(n) for _ in range(rng.randint(1, 6))]
      each = list(enumerate(ds))
      if len(each) != n:
        inv.moved = f"{len(each)} records by iteration, {n} by length"
      for i, v in list(zip(again, columns(ds[again]))) + each:
        if record(v) != vals[i]:
          inv.moved = f"position {i} of {n}: {v} after {vals[i]}"
    if n and op.get("addresses") and inv.moved is None:
      self.probes["explicit_addresses"] += 1
      self.by_address(c, op, st, inv, rng)
    return None

  def by_address(self, c, op, st, inv, rng):
    """Random access through addresses the reader selected itself."""
    from space.core.random_access import RandomAccessDataSource
    h = self.handle(c, st)
    r = h.local()
    v = h.storage.metadata.current_snapshot_id
    names = op["fields"]
    addr = r.read_all(fields=names, reference_read=True, version=v)
    full = r.read_all(fields=names, version=v)
    sizes = [0 if t is None else t.num_rows for t in (addr, full)]
    if sizes[0] != sizes[1]:
      inv.moved = "a reference read has other rows than a read"
    if sizes[0] != sizes[1] or not sizes[0]:
      # This handle may be older than the one that was opened by path.
      return
    take = [rng.randrange(addr.num_rows) for _ in range(rng.randint(1, 8))]
    if rng.random() < 0.3:
      take = sorted(set(take))
    ds = RandomAccessDataSource({n: h.storage for n in names}, addr.take(take),
                                use_array_record_data_source=bool(op.get("ar")))
    if len(ds) != len(take):
      inv.moved = f"{len(ds)} records for {len(take)} addresses"
      return
    want = full.take(take).to_pylist()
    got = [ds[i] for i in range(len(ds))]
    if rng.random() < 0.5:
      got = columns(ds.__getitems__(list(range(len(ds)))))
    if len(names) == 1:
      want = [w[names[0]] for w in want]
      if op.get("ar"):
        # One record file after the other.
        want, got = sorted(want), sorted(got)
    if want != got:
      inv.moved = f"addresses {take} give {short_list(got)}, not " \
          f"{short_list(want)}"

  def do_diff(self, c, op, st, inv):
    ids = sorted(st.snaps)
    a, b = ids[op["a"] % len(ids)], ids[op["b"] % len(ids)]
    if op.get("rel"):
      # An ancestor of the second version.
      line = [b]
      while st.snaps[line[-1]].parent is not None:
        line.append(st.snaps[line[-1]].parent)
      a = line[op["a"] % len(line)]
    if a > b and not op.get("rev"):
      a, b = b, a
    inv.range = (a, b)
    r = self.runner(c, st)
    inv.changes = []
    if op.get("rayds") and c.spec.get("ray"):
      for ch in r.diff_ray(self.name_of(st, op, a), self.name_of(st, op, b),
                           batch_size=op.get("batch")):
        for ds in ch.data:
          for t in self.ray_tables("diff", ds):
            inv.changes.append((ch.snapshot_id, ch.type_.name, t))
      return None
    it = r.diff(self.name_of(st, op, a), self.name_of(st, op, b),
                batch_size=op.get("batch"))
    if op.get("early"):
      self.meanwhile(c, op)
    for ch in it:
      inv.changes.append((ch.snapshot_id, ch.type_.name, ch.data))
      if op.get("slow"):
        self.sim.point("app")
      if len(inv.changes) == 1 and not op.get("early"):
        self.meanwhile(c, op)
    return None

  def name_of(self, st, op, i):
    """A tag or branch of the version, if it can't change meanwhile."""
    if op.get("names") and len(self.sc["clients"]) == 1:
      for n, r in sorted(st.refs.items()):
        if r[1] == i:
          return n
    return i

  # --------------------------------------------------------------- create
  def do_create(self, c, op, st, inv):
    sch = self.schema(op["schema"])
    if op.get("cat"):
      h = self.catalog(c).create_dataset(st.name, sch.arrow(), list(sch.pks),
                                        list(sch.recs))
    else:
      h = self.space.Dataset.create(self.spelled(c, st.path), sch.arrow(),
                                    list(sch.pks), list(sch.recs))
    c.handles[st.name] = h
    c.branch[st.name] = "main"
    return None

  def catalog(self, c):
    return self.space.DirCatalog(self.spelled(c, self.base.rstrip("/")))

  def do_cat_open(self, c, op, st, inv):
    h = self.catalog(c).dataset(st.name)
    c.handles[st.name] = h
    c.branch[st.name] = "main"
    return h

  def do_cat_list(self, c, op, st, inv):
    inv.listed_at = {n for n, s in self.stores.items() if s.exists}
    inv.listed = {d.name: d.location for d in self.catalog(c).datasets()}
    return None

  def do_materialize(self, c, op, st, inv):
    src = self.stores[op["source"]]
    inv.no_source = not src.exists
    view = M.build_view(op["transform"], self.handle(c, src), src.schema)
    if op.get("cat"):
      mv = self.catalog(c).materialize(st.name, view)
    else:
      mv = view.materialize(st.path)
    c.handles[st.name] = mv
    c.branch[st.name] = "main"
    return None

  # --------------------------------------------------------------- views
  def do_refresh(self, c, op, st, inv):
    mv = self.handle(c, st, mv=True)
    src = self.stores[st.mv_of["source"]]
    inv.src_start = src.current
    inv.src_state0 = len(src.states) - 1
    target = op.get("target")
    inv.target = None
    if target is not None:
      chain = self.main_chain(src)
      inv.target = chain[target % len(chain)]
      tag = next((n for n, r in sorted(src.refs.items())
                  if r == ("tag", inv.target)), None)
      if op.get("byname") and tag and len(self.sc["clients"]) == 1:
        target = tag
      else:
        target = inv.target
    r = mv.ray(self.ray_options(), self.file_options())
    return r.refresh(target_version=target, batch_size=op.get("batch"))

  def check_record_fields(self, kind, view, recs):
    if sorted(view.record_fields) != sorted(recs):
      self.fail(kind, "a view has other record fields",
                f"{sorted(view.record_fields)}, not {sorted(recs)}")

  def do_view_read(self, c, op, st, inv):
    h = self.handle(c, st)
    view = M.build_view(op["transform"], h, st.schema)
    self.check_record_fields("view", view,
                             M.transform_recs(op["transform"], st.recs))
    inv.version = self.version_arg(st, op)
    r = view.ray(self.ray_options())
    f = op.get("filter")
    inv.tables = list(r.read(
        filter_=None if f is None else M.to_expr(f, st.schema),
        version=inv.version, batch_size=op.get("batch")))
    return None

  def ray_tables(self, kind, ds):
    """The data of a Ray dataset, which also counts its rows."""
    n = ds.count()
    tables = list(ds.iter_batches(batch_size=None, batch_format="pyarrow"))
    rows = sum(t.num_rows for t in tables)
    if n != rows:
      self.fail(kind, "a Ray dataset miscounts its rows",
                f"{n} by count(), {rows} read")
    self.probes["ray_counts"] += 1
    return tables

  def do_view_diff(self, c, op, st, inv):
    ids = self.main_chain(st)
    a, b = ids[op["a"] % len(ids)], ids[op["b"] % len(ids)]
    if a > b:
      a, b = b, a
    inv.range = (a, b)
    h = self.handle(c, st)
    view = M.build_view(op["transform"], h, st.schema)
    r = view.ray(self.ray_options())
    inv.changes = []
    if op.get("rayds"):
      for ch in r.diff_ray(a, b, batch_size=op.get("batch")):
        for ds in ch.data:
          for t in self.ray_tables("view", ds):
            inv.changes.append((ch.snapshot_id, ch.type_.name, t))
      return None
    for ch in r.diff(a, b, batch_size=op.get("batch")):
      inv.changes.append((ch.snapshot_id, ch.type_.name, ch.data))
    return None

  def do_mv_view(self, c, op, st, inv):
    """Read the view behind a materialized view: its sources, transformed."""
    mv = self.handle(c, st, mv=True)
    src = self.stores[st.mv_of["source"]]
    inv.src_state0 = len(src.states) - 1
    f = op.get("filter")
    inv.tables = list(mv.view.ray(self.ray_options()).read(
        filter_=None if f is None else M.to_expr(f, src.schema),
        batch_size=op.get("batch")))

  def do_files(self, c, op, st, inv):
    """List the files of a version."""
    h = self.handle(c, st)
    h.storage.reload()
    inv.version = self.version_arg(st, op)
    d = h.dataset if st.mv_of is not None else h
    inv.files = d.index_files(inv.version)
    sid = None if inv.version is None else h.storage.version_to_snapshot_id(
        inv.version)
    inv.manifests = [list(m(snapshot_id=sid)) for m in (
        h.storage.index_manifest, h.storage.record_manifest)]

  def do_mv_read(self, c, op, st, inv):
    mv = self.handle(c, st, mv=True)
    inv.version = self.version_arg(st, op)
    f = op.get("filter")
    names = self.names(st)
    fields = op.get("fields")
    if fields is not None:
      fields = [n for n in names if names.index(n) in fields] or names[:1]
    inv.fields = fields
    r = (mv.local() if op.get("local") else mv.dataset.local() if op.get("ds")
         else mv.ray(self.ray_options()))
    kw = {}
    if op.get("refread") and st.recs and not fields:
      kw["reference_read"] = True
    inv.tables = list(r.read(
        filter_=None if f is None else M.to_expr(f, st.schema), fields=fields,
        version=inv.version, batch_size=op.get("batch"), **kw))
    if kw:
      inv.tables = [self.resolve_refs(st, t) for t in inv.tables]
    return None

  def do_join(self, c, op, st, inv):
    right = self.stores[op["right"]]
    lh, rh = self.handle(c, st), self.handle(c, right)
    inv.right_start = len(right.states) - 1
    if op.get("lt"):
      lh = M.build_view(op["lt"], lh, st.schema)
    if op.get("rt"):
      rh = M.build_view(op["rt"], rh, right.schema)
    view = lh.join(rh, keys=[op.get("key", "k")],
                   left_fields=copy_list(op.get("lf")),
                   right_fields=copy_list(op.get("rf")),
                   left_reference_read=bool(op.get("lref")),
                   right_reference_read=bool(op.get("rref")))
    inv.names = list(view.schema.names)
    self.check_record_fields("join", view, [
        r for x, t, f in ((st, "lt", "lf"), (right, "rt", "rf"))
        for r in (M.transform_recs(op[t], x.recs) if op.get(t) else x.recs)
        if not op.get(f) or r in op[f]])
    fn = None
    if op.get("parts"):
      fn = Partition(op["parts"])
    r = view.ray(self.ray_options())
    jo = self.options.JoinOptions(partition_fn=fn)
    f = op.get("filter")
    inv.tables = list(r.read(
        filter_=None if f is None else M.to_expr(f, st.schema),
        join_options=jo))
    refs = {}
    for x, side in ((st, "lref"), (right, "rref")):
      if op.get(side):
        refs.update({n: x for n in inv.names if n in x.recs})
    tables = inv.tables
    for x in {x.name: x for x in refs.values()}.values():
      inv.tables = [self.resolve_refs(x, t) for t in inv.tables]
    inv.moved = None
    if refs and op.get("ra"):
      for t, full in zip(tables, inv.tables):
        self.access_join(c, op, refs, t, full, inv)
    return None

  def access_join(self, c, op, refs, table, full, inv):
    """Random access to the records of both sides of a join."""
    from space.core.random_access import RandomAccessDataSource
    self.probes["join_random_access"] += 1
    names = list(refs)
    ds = RandomAccessDataSource(
        {n: x.path if op["ra"] == 1 else self.handle(c, x).storage
         for n, x in refs.items()}, table)
    want = full.select(names).to_pylist()
    n = len(ds)
    got = [ds[i] for i in range(n)] if op["ra"] == 1 else columns(
        ds.__getitems__(list(range(n)))) if n else []
    if len(names) == 1:
      # One record file after the other.
      want, got = sorted(w[names[0]] for w in want), sorted(got)
    if want != got:
      inv.moved = f"random access to {names} of a join gives " \
          f"{short_list(got)}, not {short_list(want)}"

  # -------------------------------------------------------------------- judge
  def window(self, st, inv):
    """States of the storage between invocation and return."""
    return st.states[max(inv.start, 0):]

  def heads_in(self, states, branch):
    out = []
    for refs, cur in states:
      if branch == "main":
        out.append(cur)
      else:
        r = refs.get(branch)
        out.append(r[1] if r is not None and r[0] == "branch" else None)
    return out

  # Violation kind of a result of another form than specified.
  FORM = {"read": "read", "read_all": "read", "versions": "refs",
          "diff": "diff", "random_access": "record", "refresh": "mv",
          "view_read": "view", "view_diff": "view", "mv_read": "view",
          "join": "join", "create": "create", "materialize": "create",
          "cat_open": "create", "cat_list": "create"}

  def judge(self, c, op, st, inv, how=None):
    try:
      return (how or self.judge_result)(c, op, st, inv)
    except HarnessError:
      raise
    except Exception as e:  # pylint: disable=broad-except
      return self.fail(self.FORM.get(op["op"], "ack"),
                       "the result of an operation can't be understood",
                       f"{op['op']} by {c.id}: {trace_of(e)}")

  def judge_result(self, c, op, st, inv):
    if self.aborted:
      return
    kind = op["op"]
    faulted = c.proc.faulted_in_op
    self.results[f"{kind}:{self.outcome(inv)}"] += 1
    if inv.exc is not None:
      c.last_failed = True
      self.judge_exception(c, op, st, inv, faulted)
      return
    if kind in DATA_OPS:
      self.judge_data(c, op, st, inv, faulted)
    elif kind in ("tag", "branch", "untag", "unbranch"):
      if len(inv.commits) != 1:
        self.fail("ack", "a reference operation returned without taking "
                  "effect", f"{kind} {op['name']}")
    elif kind in ("create", "materialize"):
      if len(inv.commits) != 1:
        self.fail("create", "a create call returned but created nothing", "")
      else:
        self.check_schema(st, c.handles[st.name], "the created dataset")
    elif kind == "schema":
      if not st.exists:
        self.fail("create", "a missing dataset was loaded", st.name)
      else:
        self.check_schema(st, inv.result, "a loaded dataset")
    elif kind == "cat_open":
      self.judge_open(c, op, st, inv)
    elif kind == "cat_list":
      now = {n for n, s in self.stores.items() if s.exists}
      got = set(inv.listed)
      if not inv.listed_at <= got or not got <= now:
        self.fail("create", "the catalog lists other datasets",
                  f"{sorted(got)} expected {sorted(now)}")
      elif any(sio.plain(p) != self.stores[n].path for n, p in inv.listed.items()):
        self.fail("create", "the catalog lists wrong locations",
                  f"{inv.listed}")
    elif kind in ("read", "read_all"):
      self.judge_read(c, op, st, inv)
    elif kind == "versions":
      self.judge_versions(c, op, st, inv)
    elif kind == "diff":
      self.judge_diff(c, op, st, inv)
    elif kind == "random_access":
      self.judge_random(c, op, st, inv)
    elif kind == "refresh":
      self.judge_refresh(c, op, st, inv, faulted)
    elif kind in ("view_read", "mv_read"):
      self.judge_view(c, op, st, inv)
    elif kind == "view_diff":
      self.judge_view_diff(c, op, st, inv)
    elif kind == "mv_view":
      self.judge_mv_view(c, op, st, inv)
    elif kind == "files":
      self.judge_files(c, op, st, inv)
    elif kind == "join":
      self.judge_join(c, op, st, inv)

  def judge_open(self, c, op, st, inv):
    h = inv.result
    if not st.exists:
      return self.fail("create", "the catalog opened a missing dataset",
                       st.name)
    mv = type(h).__name__ == "MaterializedView"
    if mv != (st.mv_of is not None):
      return self.fail("create", "the catalog opened a dataset as another type",
                       type(h).__name__)
    sch = h.storage.logical_schema
    if list(sch.names) != list(self.names(st)) or \
        list(h.storage.primary_keys) != list(st.pks):
      return self.fail("create", "the catalog opened a dataset with another "
                       "schema", f"{sch}")
    return self.check_schema(st, h.storage, "a dataset of the catalog")

  def judge_exception(self, c, op, st, inv, faulted):
    """Exceptions are legal after an injected fault or by specification."""
    kind = op["op"]
    e = inv.exc
    if (kind not in DATA_OPS and kind != "refresh" or
        op.get("bad")) and not faulted and inv.commits:
      return self.fail("ack", "an operation raised but took effect",
                       f"{kind}: {e!r}")
    if faulted:
      # Either nothing or everything happened; the commit hook verified it.
      if st is not None and st.exists:
        self.check_state(st, "ioerror")
      elif st is not None and self.read_entry(st) is not None:
        self.fail("create", "a storage exists after a failed create", st.name)
      if self.aborted or not isinstance(e, self.errors.UserInputError):
        return None
      # It is the caller who is told to be wrong.
    E = self.errors
    states = self.window(st, inv) if st is not None else []
    br = inv.branch
    ok = bool(op.get("bad")) and not inv.commits
    if (st is not None and not inv.existed and kind != "cat_open" and
        isinstance(e, (FileNotFoundError, OSError)) and
        kind not in ("create", "materialize")):
      self.probes["legal_errors"] += 1
      return None
    if kind in ("read", "read_all", "random_access", "view_read", "files"):
      if isinstance(e, E.VersionNotFoundError):
        v = getattr(inv, "version", None)
        if isinstance(v, str):
          ok = any(v not in s[0] for s in states)
        elif v is None:
          ok = any(h is None for h in self.heads_in(states, br))
        else:
          ok = v not in st.snaps
      if kind == "random_access" and isinstance(e, E.UserInputError):
        ok = ok or any(h is not None and not st.snaps[h].rows
                       for h in self.heads_in(states, br))
    elif kind == "tag":
      ok = isinstance(e, E.VersionAlreadyExistError) and any(
          op["name"] in s[0] for s in states)
      ok = ok or (isinstance(e, E.UserInputError) and
                  op["name"] in ("", "main"))
      ok = ok or (isinstance(e, E.VersionNotFoundError) and
                  inv.snap_id is not None and inv.snap_id not in st.snaps)
    elif kind == "branch":
      ok = isinstance(e, E.VersionAlreadyExistError) and any(
          op["name"] in s[0] for s in states)
      ok = ok or (isinstance(e, E.UserInputError) and
                  op["name"] in ("", "main"))
    elif kind in ("untag", "unbranch"):
      typ = "tag" if kind == "untag" else "branch"
      ok = isinstance(e, E.VersionNotFoundError) and any(
          s[0].get(op["name"], ("", 0))[0] != typ for s in states)
      ok = ok or (kind == "unbranch" and br == op["name"] and
                  isinstance(e, E.UserInputError))
    elif kind == "checkout":
      ok = isinstance(e, E.UserInputError) and any(
          h is None for h in self.heads_in(states, op["name"]))
    elif kind in ("diff", "view_diff"):
      a, b = inv.range
      chain = set()
      i = b
      while i is not None:
        chain.add(i)
        i = st.snaps[i].parent
      ok = isinstance(e, E.UserInputError) and (a == b or a not in chain)
    elif kind == "create":
      ok = isinstance(e, E.StorageExistError) and st.exists
    elif kind == "materialize":
      ok = (isinstance(e, E.StorageExistError) and st.exists or
            isinstance(e, OSError) and inv.no_source)
    elif kind == "cat_open" or op.get("cat") and kind == "schema":
      ok = isinstance(e, E.StorageNotFoundError) and not inv.existed
    elif kind == "refresh":
      src = self.stores[st.mv_of["source"]]
      heads = [s[1] for s in src.states[inv.src_state0:]]
      mvh = [s[1] for s in states]
      if isinstance(e, E.UserInputError):
        end = [inv.target] if inv.target is not None else heads
        # Nothing to refresh.
        ok = any(x <= st.synced for x in end)
        if inv.commits:
          ok = False
      del mvh
    if (kind == "refresh" and st.mv_of["transform"] == "fsub" and
        isinstance(e, KeyError) and "does not exist in schema" in str(e)):
      # Known finding: a filter on some input fields can't be materialized.
      self.known.append("C15-filter-input-fields")
      return None
    if ok:
      self.probes["legal_errors"] += 1
      return None
    k = {"diff": "diff", "schema": "schema", "view_diff": "view", "refresh": "mv",
         "create": "create", "materialize": "create", "cat_open": "create",
         "cat_list": "create", "join": "join",
         "view_read": "view", "mv_read": "mv", "mv_view": "mv",
         "files": "closure", "tag": "refs",
         "branch": "refs", "untag": "refs", "unbranch": "refs",
         "checkout": "refs", "random_access": "record"}.get(kind, "error")
    if k == "error" and c.spec.get("ray"):
      k = "ray"
    if kind in ("append_parquet", "append_ar"):
      k = "load"
    if kind in ("read", "read_all"):
      k = "rayread" if c.spec.get("ray") else "readerror"
      if isinstance(e, E.VersionNotFoundError):
        k = "refs"
    return self.fail(k, "an operation failed without cause",
                     f"{kind} by {c.id}: {type(e).__name__}: {e}"[:1000])

  def judge_data(self, c, op, st, inv, faulted):
    kind = op["op"]
    r = inv.result
    S = self.State
    br = inv.branch
    what = f"{kind} by {c.id} on {br}"
    states = self.window(st, inv)
    heads = self.heads_in(states, br)
    if r.state == S.SUCCEEDED:
      if len(inv.commits) != 1:
        return self.fail("ack", "an operation reported success without "
                         "committing", what)
      su = r.storage_statistics_update
      if su is not None and su.num_rows != inv.delta:
        return self.fail("stats", "the reported row count change is wrong",
                         f"{what}: {su.num_rows} expected {inv.delta}")
      return None
    if inv.commits:
      return self.fail("ack", "an operation reported "
                       f"{r.state.name} but committed", what)
    if r.state == S.FAILED:
      c.last_failed = True
    if (faulted or op.get("bad")) and r.state == S.FAILED:
      return None
    if r.state == S.SKIPPED:
      for h in heads:
        if h is None:
          return None  # the branch is gone, nothing to do
        base = st.snaps[h].rows
        rows, dels, adds = self.expected_rows(st, inv, base)
        if not dels and not adds:
          return None
        if kind == "delete" and M.not_over_pk(op["filter"], st.schema):
          self.known.append("C08-not-over-primary-key")
          return None
      k = "ray" if c.spec.get("ray") else "rows"
      if kind in ("append_parquet", "append_ar"):
        k = "load"
      return self.fail(k, "an operation with an effect was skipped", what)
    # FAILED must have a reason.
    if any(h is None for h in heads):
      return None
    if len(set(heads)) > 1:
      self.probes["conflicts"] += 1
      return None
    if kind in ("insert", "upsert"):
      keys = [st.schema.pk(x) for x in st.schema.rows(op["rows"])]
      if len(set(keys)) < len(keys):
        return None
      if kind == "insert":
        for h in heads:
          if set(keys) & {st.schema.pk(x) for x in st.snaps[h].rows}:
            self.probes["duplicate_rejected"] += 1
            return None
    return self.fail("spurious", "an operation was rejected without reason",
                     f"{what}: {r.error_message}")

  def candidates(self, c, st, inv):
    states = self.window(st, inv)
    v = getattr(inv, "version", None)
    if isinstance(v, int):
      return [v] if v in st.snaps else []
    if isinstance(v, str):
      ids = [s[0][v][1] for s in states if v in s[0]]
    else:
      br = inv.branch
      # A removed branch may have been replaced by a tag of the same name.
      ids = [s[1] if br == "main" else s[0][br][1] for s in states
             if br == "main" or br in s[0]]
    return list(dict.fromkeys(ids))

  def judge_read(self, c, op, st, inv):
    names = op.get("fields") or self.names(st)
    f = op.get("filter")
    ray = c.spec.get("ray")
    got = []
    for t in inv.tables:
      if sorted(t.column_names) != sorted(names):
        return self.fail("rayread" if ray else "read", "a read returned other "
                         "fields", f"{t.column_names} expected {names}")
      if not ray and not op.get("refread") and not op.get("deser"):
        for a in t.schema:
          if not same_type(a.type, st.schema.types[a.name]):
            return self.fail("schema", "a read returned a field of another "
                             "type", f"{a.name!r}: {a.type} expected "
                             f"{st.schema.types[a.name]}")
      if op["op"] == "read" and not op.get("refread") and not ray:
        n = op.get("batch") or 16
        if t.num_rows > n:
          return self.fail("read", "a batch exceeds the batch size",
                           f"{t.num_rows} > {n}")
      got.extend(t.to_pylist())
    cands = self.candidates(c, st, inv)
    if len(cands) > 1:
      self.probes["read_races_commit"] += 1
    diff = None
    for i in cands:
      want = [r for r in st.snaps[i].rows if M.matches(f, r, st.schema)]
      diff = compare(got, want, names)
      if not diff:
        return None
    if f is not None and M.not_over_pk(f, st.schema) and cands:
      want = [r for r in st.snaps[cands[-1]].rows
              if M.matches(f, r, st.schema)]
      if not (M.multiset(got, names) - M.multiset(want, names)):
        self.known.append("C08-not-over-primary-key")
        return None
    kind = "rayread" if ray else "read"
    if isinstance(getattr(inv, "version", None), int) and f is None:
      kind = "history"
    if op.get("refread") or (f is None and cands and self.is_record_only(
        got, st.snaps[cands[-1]].rows, st) and not op.get("fields")):
      kind = "record"
    elif len(set(cands)) > 1 or (f is None and any(
        not compare(got, s.rows, names) for s in st.snaps.values())):
      kind = "isolation"
    return self.fail(kind, "a read returned rows of no version that was "
                     "current", f"{c.id} {json.dumps(op)[:300]} versions {cands}: {diff}")

  def judge_versions(self, c, op, st, inv):
    t = inv.result
    rows = t.to_pylist()
    got = collections.Counter(
        (r["snapshot_id"], r["tag_or_branch"]) for r in rows)
    times = [r["create_time"] for r in rows]
    if times != sorted(times, reverse=True):
      return self.fail("refs", "versions are not ordered by time", "")
    for r in rows:
      if r["snapshot_id"] in st.snaps:
        made = self.meta.Snapshot.FromString(
            st.snaps[r["snapshot_id"]].msg).create_time.seconds
        if int(r["create_time"].timestamp()) != made:
          return self.fail("history", "a version is listed with another time",
                           f"{r} made at {made}")
    for n in range(max(inv.start, 0), len(st.states)):
      refs, _ = st.states[n]
      ids = self.ids_at(st, n)
      want = collections.Counter()
      for i in ids:
        names = [k for k, r in refs.items() if r[1] == i]
        for k in names or [None]:
          want[(i, k)] += 1
      if got == want:
        return None
    return self.fail("refs", "the version list is wrong",
                     f"{sorted(map(str, got))}")

  def ids_at(self, st, n):
    order = sorted(st.snaps.values(), key=lambda s: s.step)
    # Each data commit appends one state; count those up to n.
    ids = {0}
    seen = 0
    del order, seen
    for k in range(n + 1):
      refs, cur = st.states[k]
      ids.add(cur)
      for r in refs.values():
        ids.add(r[1])
    return ids

  def expected_changes(self, st, a, b):
    chain = []
    i = b
    while i is not None and i > a:
      chain.append(i)
      i = st.snaps[i].parent
    return chain[::-1], i == a

  def judge_diff(self, c, op, st, inv):
    a, b = inv.range
    chain, ok = self.expected_changes(st, a, b)
    if not ok or a == b:
      return self.fail("diff", "a diff between unrelated versions succeeded",
                       f"{a}..{b}")
    last = (-1, 0)
    got_del = collections.defaultdict(collections.Counter)
    got_add = collections.defaultdict(list)
    order = {i: n for n, i in enumerate(chain)}
    names = self.names(st)
    for sid, typ, data in inv.changes:
      if sid not in order:
        return self.fail("diff", "a change of an unrelated version",
                         f"{sid} in {a}..{b}")
      key = (order[sid], 0 if typ == "DELETE" else 1)
      if key < last:
        return self.fail("diff", "changes are not in commit order, deletions "
                         "first", f"{sid} {typ}")
      last = key
      rows = data.to_pylist()
      if typ == "DELETE":
        for r in rows:
          got_del[sid][M.canon([r[p] for p in st.pks])] += 1
      else:
        got_add[sid].extend(rows)
    for i in chain:
      s = st.snaps[i]
      if got_del[i] != s.dels:
        return self.fail("diff", "deleted keys of a version are wrong",
                         f"{i}: {short(got_del[i])} expected {short(s.dels)}")
      d = compare(got_add[i], s.adds, names)
      if d:
        return self.fail("diff", "added rows of a version are wrong",
                         f"{i}: {d}")
    self.probes["diff_versions"] += len(chain)
    return None

  def judge_random(self, c, op, st, inv):
    if inv.moved is not None:
      return self.fail("record", "random access finds another record at an "
                       "address", f"{op['fields']}: {inv.moved}")
    cands = self.candidates(c, st, inv)
    names = op["fields"]
    d = None
    for i in cands:
      d = compare(inv.records, st.snaps[i].rows, names)
      if not d:
        return None
    return self.fail("record", "random access returns other records",
                     f"{names} length {inv.length}: {d}")

  def judge_refresh(self, c, op, st, inv, faulted):
    results = inv.result
    S = self.State
    src = self.stores[st.mv_of["source"]]
    for r in results:
      if r.state not in (S.SUCCEEDED, S.FAILED, S.SKIPPED):
        return self.fail("mv", "unknown refresh result", str(r))
    n_ok = sum(r.state == S.SUCCEEDED for r in results)
    if n_ok != len(inv.commits):
      return self.fail("mv", "refresh results do not match its commits",
                       f"{n_ok} succeeded, {len(inv.commits)} commits")
    failed = [r for r in results if r.state == S.FAILED]
    if failed:
      c.last_failed = True
      if faulted:
        return None
      mvh = {s[1] for s in self.window(st, inv)} - set(inv.commits)
      if len(mvh) > 1 or len(self.window(st, inv)) - 1 > len(inv.commits):
        self.probes["refresh_conflicts"] += 1
        return None
      return self.fail("mv", "a refresh failed without cause",
                       str(failed[0].error_message))
    # A complete refresh has reached a source version of its time window.
    if inv.target is not None:
      ends = [inv.target]
    else:
      ends = [s[1] for s in src.states[inv.src_state0:]]
    names = self.names(st)
    got = st.snaps[st.current].rows
    for e in ends:
      want = M.transform_rows(st.mv_of["transform"], src.snaps[e].rows)
      if not compare(got, want, names):
        st.synced = max(st.synced, e)
        return None
    if len(self.window(st, inv)) - 1 > len(inv.commits):
      return None  # another refresher went further
    return self.fail("mv", "a refresh completed but the view is not up to date",
                     f"view at {st.synced}, source {ends}")

  def judge_view(self, c, op, st, inv):
    got = [r for t in inv.tables for r in t.to_pylist()]
    if op["op"] == "mv_read":
      names = inv.fields or self.names(st)
      d = None
      for i in self.candidates(c, st, inv):
        want = [r for r in st.snaps[i].rows
                if M.matches(op.get("filter"), r, st.schema)]
        d = compare(got, want, names)
        if not d:
          return None
      return self.fail("mv", "a view read returns no committed version", d)
    names = M.transform_names(op["transform"], st.schema.names)
    d = None
    for i in self.candidates(c, st, inv):
      want = M.transform_rows(
          op["transform"], [r for r in st.snaps[i].rows
                            if M.matches(op.get("filter"), r, st.schema)])
      d = compare(got, want, names)
      if not d:
        return None
    return self.fail("view", "a view read is not the transform of the source",
                     f"{op['transform']}: {d}")

  def judge_view_diff(self, c, op, st, inv):
    a, b = inv.range
    chain, ok = self.expected_changes(st, a, b)
    if not ok or a == b:
      return self.fail("view", "a diff between unrelated versions succeeded",
                       f"{a}..{b}")
    names = M.transform_names(op["transform"], st.schema.names)
    adds = collections.defaultdict(list)
    dels = collections.defaultdict(collections.Counter)
    for sid, typ, data in inv.changes:
      fields = names if typ == "ADD" else st.pks
      if data.num_rows and set(data.column_names) != set(fields):
        return self.fail("view", "changes of a view have other fields",
                         f"{sid} {typ}: {data.column_names}, not {fields}")
      if typ == "ADD":
        adds[sid].extend(data.to_pylist())
      else:
        for r in data.to_pylist():
          dels[sid][M.canon([r[p] for p in st.pks])] += 1
    for i in chain:
      want = M.transform_rows(op["transform"], st.snaps[i].adds)
      d = compare(adds[i], want, names)
      if d:
        return self.fail("view", "added rows of a view are not the transform",
                         f"{i}: {d}")
      if dels[i] != st.snaps[i].dels:
        return self.fail("view", "deleted keys of a view are wrong", f"{i}")
    return None

  def judge_mv_view(self, c, op, st, inv):
    got = [r for t in inv.tables for r in t.to_pylist()]
    src = self.stores[st.mv_of["source"]]
    t = st.mv_of["transform"]
    names = M.transform_names(t, src.schema.names)
    d = None
    for s in src.states[inv.src_state0:]:
      want = M.transform_rows(t, [r for r in src.snaps[s[1]].rows if M.matches(
          op.get("filter"), r, src.schema)])
      d = compare(got, want, names)
      if not d:
        return None
    return self.fail("mv", "the view of a loaded materialized view is not the "
                     "transform of its source", f"{t}: {d}")

  def judge_files(self, c, op, st, inv):
    def full(f):
      return os.path.realpath(os.path.join(st.path, f))

    def rows(tables, key):
      return sorted((tuple(sorted((k, repr(v)) for k, v in r.items()))
                     for t in tables for r in t.to_pylist()), key=key)

    why = None
    for i in self.candidates(c, st, inv):
      mf = self.meta.Snapshot.FromString(st.snaps[i].msg).manifest_files
      raw = [[pq.read_table(full(f)) for f in fs] for fs in (
          mf.index_manifest_files, mf.record_manifest_files)]
      paths = sorted(full(r["_FILE"]) for t in raw[0] for r in t.to_pylist())
      if sorted(map(os.path.realpath, inv.files)) != paths:
        why = f"files of {i}: {sorted(inv.files)}, not {paths}"
      elif [rows(x, str) for x in inv.manifests] != [
          rows(x, str) for x in raw]:
        why = f"manifests of {i}"
      else:
        return None
    return self.fail("closure", "other files are listed than the version has",
                     why)

  def judge_join(self, c, op, st, inv):
    right = self.stores[op["right"]]
    key = op.get("key", "k")
    lt, rt = op.get("lt"), op.get("rt")
    lf = op.get("lf") or (M.transform_names(lt, st.schema.names) if lt else
                          st.schema.names)
    rf = op.get("rf") or (M.transform_names(rt, right.schema.names) if rt else
                          right.schema.names)
    names = [key] + [n for n in lf if n != key] + [n for n in rf if n != key]
    f = op.get("filter")
    got = []
    for t in inv.tables:
      if sorted(t.column_names) != sorted(names):
        return self.fail("join", "a join returned other fields",
                         f"{t.column_names} expected {names}")
      got.extend(t.to_pylist())
    if inv.moved:
      return self.fail("join", "the references of a join are to other records",
                       inv.moved)
    lids = self.candidates(c, st, inv)
    br = c.branch.get(right.name, "main")
    rids = list(dict.fromkeys(
        s[1] if br == "main" else s[0][br][1]
        for s in right.states[inv.right_start:] if br == "main" or br in s[0]))
    d = None
    for li in lids:
      for ri in rids:
        want = []
        idx = collections.defaultdict(list)
        lrows, rrows = st.snaps[li].rows, right.snaps[ri].rows
        if lt:
          lrows = M.transform_rows(lt, lrows)
        if rt:
          rrows = M.transform_rows(rt, rrows)
        for r in rrows:
          idx[r[key]].append(r)
        for l in lrows:
          for r in idx.get(l[key], []):
            m = {key: l[key]}
            m.update({n: l[n] for n in lf})
            m.update({n: r[n] for n in rf})
            if f is None or M.matches(f, m, st.schema):
              want.append(m)
        d = compare(got, want, names)
        if not d:
          self.probes["join_rows"] += len(want)
          return None
    return self.fail("join", "a join is not the inner join of its sources", d)

  # -------------------------------------------------------------------- finale
  def finale(self):
    """Faults have stopped: a lone new writer must succeed at first try."""
    fin = self.sc.get("finale")
    if not fin:
      return
    c = Client(self, {"id": "z", "ops": fin, "ray": False})
    self.clients["z"] = c
    c.final = True
    self.start_client(c)
    stuck = self.sim.run()
    if self.aborted:
      return
    if stuck or c.pos < len(fin):
      self.fail("progress", "a lone writer does not finish", str(stuck))

  def judge_final(self, c, op, st, inv):
    """Without faults and other writers an operation succeeds at once."""
    if inv.exc is not None:
      if op.get("opt") and isinstance(inv.exc, self.errors.StorageExistError):
        return
      if op.get("opt") and op["op"] == "refresh" and isinstance(
          inv.exc, self.errors.UserInputError):
        return
      self.fail("progress", "an operation fails after faults have stopped",
                f"{op['op']}: {inv.exc!r}")
      return
    state = getattr(inv.result, "state", None)
    if state is not None and state not in (
        self.State.SUCCEEDED, self.State.SKIPPED):
      self.fail("progress", "an operation fails after faults have stopped",
                f"{op['op']}: {inv.result}")
      return
    if op["op"] == "mv_read" and op.get("final"):
      src = self.stores[st.mv_of["source"]]
      want = M.transform_rows(st.mv_of["transform"],
                              src.snaps[src.current].rows)
      got = [r for t in inv.tables for r in t.to_pylist()]
      d = compare(got, want, self.names(st))
      if d:
        self.fail("progress", "a refresh after faults have stopped does not "
                  "bring the view up to date", d)

  def final_checks(self):
    if self.aborted:
      return
    for st in self.stores.values():
      if not st.exists:
        continue
      raw = self.read_entry(st)
      if raw != st.raw_entry:
        self.fail("spurious", "the entry point changed unnoticed", st.name)
        return
      self.check_state(st, "durable", all_snaps=True)
      if self.aborted:
        return
      for p, d in st.protected.items():
        if digest_or_none(p) != d:
          self.fail("immutable", "a file of a committed version changed",
                    self.sim.rel(p))
          return
    for p, d in self.external.items():
      if digest_or_none(p) != d:
        self.fail("extfile", "an external file was modified",
                  self.sim.rel(p))
        return
    if self.sc.get("relocate"):
      self.check_relocation()

  def first_key(self, st, key, field):
    v = key[1:][st.schema.pks.index(field)]
    return v[1] if isinstance(v, tuple) else v

  def moved_view(self, st, dst):
    """A moved view finds its functions and can be read and refreshed."""
    mv = self.space.MaterializedView.load(dst) if hasattr(
        self.space, "MaterializedView") else None
    if mv is None:
      from space.core.views import MaterializedView
      mv = MaterializedView.load(dst)
    names = self.names(st)
    src = self.stores[st.mv_of["source"]]
    t = mv.local().read_all()
    d = compare(M.table_rows(t), st.snaps[st.current].rows, names)
    if d:
      self.fail("reloc", "view rows differ after relocation", d)
      return False
    got = [r for t in mv.view.ray(self.ray_options()).read()
           for r in t.to_pylist()]
    d = compare(got, M.transform_rows(st.mv_of["transform"],
                                      src.snaps[src.current].rows), names)
    if d:
      self.fail("reloc", "view transform differs after relocation", d)
      return False
    return True

  def check_relocation(self):
    """Move the whole tree elsewhere: everything must still be readable."""
    new_root = sio.make_root("m")
    try:
      # Views first: they refer to their source by its place.
      for st in sorted(self.stores.values(), key=lambda s: s.mv_of is None):
        if not st.exists:
          continue
        dst = os.path.join(new_root, self.sc.get("move_place", ""), *["deep"] * (self.sc["relocate"] - 1),
                           "moved_" + st.name)
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        os.rename(st.path, dst)
        st.path = dst
        self.probes["relocations"] += 1
        self.check_state(st, "reloc", all_snaps=True)
        if self.aborted:
          return
        ds = self.space.Dataset.load(dst)
        chain = self.main_chain(st)
        try:
          if st.mv_of is not None:
            if not self.moved_view(st, dst):
              return
            continue
          if len(chain) > 1 and st.mv_of is None:
            add = []
            for ch in ds.local().diff(chain[0], chain[-1]):
              if ch.type_.name == "ADD":
                add.extend(ch.data.to_pylist())
            want = [r for i in chain[1:] for r in st.snaps[i].adds]
            d = compare(add, want, self.names(st))
            if d:
              self.fail("reloc", "change feed differs after relocation", d)
              return
          row = [[900 + len(chain), 90000 + len(chain)]]
          r = ds.local(self.file_options()).append(st.schema.table(row))
          if r.state != self.State.SUCCEEDED:
            self.fail("reloc", "append fails after relocation", repr(r))
            return
          ds.add_tag("after-move")
          got = self.fresh_rows(st, version="after-move")
          want = st.snaps[st.current].rows + st.schema.rows(row)
          d = compare(got, want, self.names(st))
          if not d and want:
            # Rewrite old files in place as well.
            row2 = [[row[0][0], row[0][1] + 1]]
            keys = {st.schema.pk(x) for x in st.schema.rows(row2)}
            first = st.schema.pk(want[0])
            want = [x for x in want if st.schema.pk(x) not in keys and
                    st.schema.pk(x) != first] + st.schema.rows(row2)
            f = None
            for p in st.schema.pks:
              e = pc.field(p) == pa.scalar(
                  self.first_key(st, first, p), st.schema.types[p])
              f = e if f is None else f & e
            for r in (ds.local(self.file_options()).delete(f),
                      ds.local(self.file_options()).upsert(
                          st.schema.table(row2))):
              if r.state == self.State.FAILED:
                d = d or repr(r)
            d = d or compare(self.fresh_rows(st, branch="main"), want,
                             self.names(st))
          if d:
            self.fail("reloc", "rows differ after relocation and append", d)
            return
        except Exception as e:  # pylint: disable=broad-except
          self.fail("reloc", "operation fails after relocation", repr(e))
          return
        old = self.base.encode()
        for dp, _, fs in os.walk(dst):
          for f in fs:
            if f.endswith(".tmp"):
              continue
            p = os.path.join(dp, f)
            if (old in sio.raw_read(p) and st.mv_of is None and
                not self.external):
              self.fail("reloc", "a stored file contains an absolute path",
                        f)
              return
    finally:
      sio.drop_root(new_root)


DATA_OPS = {
    "append", "append_from", "append_parquet", "append_ar", "insert", "upsert",
    "delete"
}


def op_pairs(op):
  if op["op"] == "append":
    return op["rows"]
  return [p for src in op["sources"] for batch in src for p in batch]


def copy_list(x):
  return list(x) if x is not None else None


class TableSource:
  """A picklable function returning an iterator of tables."""

  def __init__(self, schema, batches, form=None, bad=None):
    self.schema = schema
    self.batches = batches
    self.form = form
    self.bad = bad

  def __call__(self):
    sch = M.Schema(self.schema)
    for i, b in enumerate(self.batches):
      core.user_point("input")
      if self.bad and self.bad["at"][1] == i:
        yield M.spoil(sch.table(b), self.bad)
      else:
        yield M.reform(sch.table(b), self.form)
    core.user_point("input")


class Interrupted:
  """A source that works with the storage while it is read."""

  def __init__(self, source, act):
    self.source = source
    self.act = act

  def __call__(self):
    tables = list(self.source())
    for t in tables[:1]:
      yield t
    self.act()
    for t in tables[1:]:
      yield t


class Partition:
  """Splits an integer join range in several ranges."""

  def __init__(self, n):
    self.n = n

  def __call__(self, range_):
    from space import Range
    lo, hi = range_.min_, range_.max_
    if lo > hi:
      return [range_]
    if isinstance(lo, str):
      cuts = [lo] + [x for x in (f"key{i:04d}" for i in range(0, 30, 7))
                     if lo < x < hi][:self.n - 1] + [hi]
      return [Range(a, b, include_max=b == hi)
              for a, b in zip(cuts, cuts[1:])] or [range_]
    n = max(1, min(self.n, hi - lo + 1))
    cuts = [lo + (hi - lo) * i // n for i in range(n)] + [hi]
    out = []
    for i in range(n):
      out.append(Range(cuts[i], cuts[i + 1], include_max=i == n - 1))
    return out


def ar_index(record):
  core.user_point("index_fn")
  if isinstance(record["r"][0], dict):
    n = int(record["r"][0]["id"])
    return {"k": n >> 32, "u": n & 0xffffffff}
  r = record["r"][0] if isinstance(record["r"], list) else record["r"]
  if not r:
    return dict(zip(("k", "u"), M.EMPTY))
  k, u = r.decode().split(",")
  return {"k": int(k), "u": int(u)}


def trace_of(e):
  """The error and the places of this file it came through."""
  at = []
  tb = e.__traceback__
  while tb is not None:
    code = tb.tb_frame.f_code
    at.append(f"{os.path.basename(code.co_filename)}:{code.co_name}")
    tb = tb.tb_next
  return f"{e!r} in {' > '.join(at[-4:])}"


def fixed_part(md):
  m = type(md)()
  m.CopyFrom(md)
  m.ClearField("snapshots")
  m.ClearField("refs")
  m.ClearField("current_snapshot_id")
  m.ClearField("last_update_time")
  return m.SerializeToString(deterministic=True)


def digest(path):
  return hashlib.blake2b(sio.raw_read(path), digest_size=12).hexdigest()


def digest_or_none(path):
  try:
    return digest(path)
  except OSError:
    return None


def same_type(a, b):
  """Extension types are the same when their parameters are."""
  if isinstance(a, pa.ExtensionType) or isinstance(b, pa.ExtensionType):
    return type(a).__name__ == type(b).__name__ and (
        json.loads(a.__arrow_ext_serialize__()) ==
        json.loads(b.__arrow_ext_serialize__()))
  if pa.types.is_list(a) and pa.types.is_list(b):
    return same_type(a.value_type, b.value_type)
  if pa.types.is_struct(a) and pa.types.is_struct(b):
    return [f.name for f in a] == [f.name for f in b] and all(
        same_type(x.type, y.type) for x, y in zip(a, b))
  return a == b


def columns(got):
  """Records of a batch: several fields without serializer come as columns."""
  if isinstance(got, dict):
    keys = list(got)
    return [dict(zip(keys, vs)) for vs in zip(*(got[k] for k in keys))]
  return got


def short_list(xs, n=6):
  return str(xs[:n])[:300]


def short(counter, n=4):
  items = [f"{str(k)[:60]}x{v}" for k, v in list(counter.items())[:n]]
  return f"{sum(counter.values())} [{', '.join(items)}]"


def compare(got, want, names):
  """None when equal as multisets, else a description."""
  try:
    a = M.multiset(got, names)
  except KeyError as e:
    return f"missing field {e}"
  b = M.multiset(want, names)
  if a == b:
    return None
  return f"missing {short(b - a)}, unexpected {short(a - b)}"


def diff_missing(got, want, names):
  return bool(M.multiset(want, names) - M.multiset(got, names))
