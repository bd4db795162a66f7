"""Deterministic simulator core: seeded scheduler, simulated clock, fault plan.

One scenario (a JSON object) fully determines one execution.  Every simulated
process is a set of real OS threads that are parked and released one at a time;
a thread only gives up control at a *point* (an intercepted I/O call, an
operation boundary or a Ray wait).  Which thread runs next, which fault fires at
which point and every other random choice derive from the scenario.
"""
import os
import contextlib
import hashlib
import random
import threading

_tls = threading.local()


class SimCrash(BaseException):
  """The simulated process is dead; unwinds its threads without side effects."""


class StepLimit(BaseException):
  """The run used more points than allowed."""


class HarnessError(Exception):
  """A bug of the harness, never a violation."""


def h64(*parts):
  s = "\x1f".join(str(p) for p in parts).encode()
  return int.from_bytes(hashlib.blake2b(s, digest_size=8).digest(), "big")


def rng_of(*parts):
  return random.Random(h64(*parts))


def current():
  return getattr(_tls, "thread", None)


@contextlib.contextmanager
def harness():
  """Run harness code (oracle reads) in a simulated thread without points."""
  t = current()
  _tls.thread = None
  try:
    yield
  finally:
    _tls.thread = t


@contextlib.contextmanager
def library(t):
  """Inside one intercepted library call: nested calls are not intercepted."""
  _tls.thread = None
  try:
    yield
  finally:
    _tls.thread = t


class Proc:
  """A simulated process: crashes as a unit."""

  def __init__(self, sim, pid, writer=True):
    self.sim = sim
    self.pid = pid
    self.dead = False
    self.open_files = {}  # id -> object with .tear(rng)
    self.threads = []
    self.children = []  # Ray worker processes owned by this driver
    self.writer = writer
    # Current operation (set by the world).
    self.op_index = -1
    self.op_points = 0
    self.faulted_in_op = False
    self.ep_reads = {}  # location -> entry point reads since op start / commit
    self.holding = set()  # commit mutexes held
    self.serial_op = False  # op enters its commit section at its first read
    self.commit_locs = ()  # locations the current operation may commit to
    self.parent = None
    self.skew = 0.0  # of its clock

  def ended_op(self, child):
    """True when the operation that owns a worker process is over."""
    r = self.root()
    return (self.dead or r.dead or r.op_index != child.op_index or
            getattr(r, "op_done", False))

  def root(self):
    return self.parent.root() if self.parent is not None else self


class SimThread:

  def __init__(self, sim, tid, proc, fn):
    self.sim = sim
    self.tid = tid
    self.proc = proc
    self.fn = fn
    self.sem = threading.Semaphore(0)
    self.done = False
    self.blocked = None  # callable -> True when it may run again
    self.timed = False  # waits for a time too
    self.started = False
    self.error = None
    self.th = None

  def _main(self):
    self.sem.acquire()
    _tls.thread = self
    try:
      if not self.proc.dead:
        self.fn()
    except SimCrash:
      pass
    except StepLimit:
      self.sim.step_limited = True
    except BaseException as e:  # pylint: disable=broad-except
      self.error = e
    finally:
      _tls.thread = None
      self.done = True
      self.sim._main_sem.release()

  def runnable(self):
    if self.done:
      return False
    if self.proc.dead:
      return True  # must unwind
    if self.blocked is not None:
      return bool(self.blocked())
    return True


class Sim:

  def __init__(self, scenario, root, record=True):
    self.sc = scenario
    self.root = root
    self.seed = scenario["seed"]
    self.step = 0
    self.max_steps = scenario.get("max_steps", 30000)
    self.step_limited = False
    self.now = 1_700_000_000.0
    self.t0 = self.now
    self.uuid_rng = rng_of(self.seed, "uuid")
    self.procs = []
    self.threads = []
    self._main_sem = threading.Semaphore(0)
    self.running = None
    self.log = hashlib.blake2b(digest_size=16)
    self.log_lines = [] if scenario.get("trace") else None
    self.sched_rng = rng_of(self.seed, "sched")
    self.preempt_p = scenario.get("preempt_p", 0.0)
    # Explicit schedule: key -> tid.  When present the schedule is replayed.
    self.schedule = scenario.get("schedule")
    self.recorded = []
    self.replay = {}
    if self.schedule is not None:
      for k, tid in self.schedule:
        self.replay[tuple(k)] = tid
    # Fault plan: list of dicts {proc, op, at, kind, ...}.
    self.faults = [dict(f) for f in scenario.get("faults", [])]
    self._fault_index = {}
    for f in self.faults:
      self._fault_index.setdefault((f["proc"], f["op"]), []).append(f)
    self.fired = {}
    self.mutex = {}  # location -> proc holding the commit section
    self.effect_hooks = []
    self.crash_hooks = []
    self.point_counts = {}
    self.switches = 0
    self.clock_jumps = 0
    self.sched_hash = hashlib.blake2b(digest_size=8)
    self.fault_sites = set()
    self.stats = {}

  # ---------------------------------------------------------------- logging
  def emit(self, *parts):
    line = "|".join(str(p) for p in parts)
    self.log.update(line.encode())
    self.log.update(b"\n")
    if self.log_lines is not None:
      self.log_lines.append(line)

  def stat(self, name, n=1):
    self.stats[name] = self.stats.get(name, 0) + n

  def rel(self, path):
    path = os.path.normpath(os.path.join(os.getcwd(), str(path)))
    if path.startswith(self.root):
      return path[len(self.root):].lstrip("/")
    return path

  def rng(self, *label):
    return rng_of(self.seed, *label)

  # ---------------------------------------------------------------- threads
  def new_proc(self, pid, writer=True, parent=None):
    p = Proc(self, pid, writer)
    p.parent = parent
    if parent is not None:
      p.op_index = parent.op_index
      p.skew = parent.skew
      parent.children.append(p)
      # Faults of all workers of an operation.
      for f in self._fault_index.get((f"{parent.pid}/{p.op_index}.*",
                                      p.op_index), ()):
        if getattr(parent, "workers_in_op", 0) > f.get("from", 0):
          self._fault_index.setdefault((pid, p.op_index), []).append(dict(f))
    self.procs.append(p)
    return p

  def spawn(self, proc, fn, tid=None):
    tid = tid or f"{proc.pid}.{len(proc.threads)}"
    t = SimThread(self, tid, proc, fn)
    proc.threads.append(t)
    self.threads.append(t)
    t.th = threading.Thread(target=t._main, daemon=True)
    t.th.start()
    return t

  def _pick(self, key, default=None):
    """Choose the next thread; returns None when nothing can run."""
    if len(self.threads) > 24:
      self.threads = [t for t in self.threads if not t.done]
    ready = [t for t in self.threads if t.runnable()]
    if not ready:
      return None
    dead = [t for t in ready if t.proc.dead]
    if dead:
      return dead[0]
    if len(ready) == 1:
      return ready[0]
    if self.schedule is not None:
      want = self.replay.get(key)
      for t in ready:
        if t.tid == want:
          return t
      if default is not None and default in ready:
        return default
      return ready[0]
    t = ready[self.sched_rng.randrange(len(ready))]
    self.recorded.append((list(key), t.tid))
    return t

  def run(self):
    """Main loop, in the harness thread."""
    last = None
    while True:
      key = ("end", last.tid if last else "", self._end_count(last))
      t = self._next if getattr(self, "_next", None) else None
      self._next = None
      if t is None:
        t = self._pick(key)
      if t is None:
        break
      if last is not None and t is not last:
        self.switches += 1
        self.sched_hash.update(f"{t.tid};".encode())
      self.running = t
      t.started = True
      t.blocked = None
      t.sem.release()
      self._main_sem.acquire()
      last = t
      if t.error is not None:
        raise HarnessError(f"simulated thread {t.tid} failed") from t.error
    stuck = [t.tid for t in self.threads if not t.done]
    self.running = None
    return stuck

  _ends = None

  def _end_count(self, t):
    if self._ends is None:
      self._ends = {}
    k = t.tid if t else ""
    self._ends[k] = self._ends.get(k, 0) + 1
    return self._ends[k]

  def _yield_to(self, me, other):
    self._next = other
    self._main_sem.release()
    me.sem.acquire()
    if me.proc.dead:
      raise SimCrash()

  def block(self, cond):
    """Park the current thread until cond() is true."""
    me = current()
    while not cond():
      me.blocked = cond
      self._main_sem.release()
      me.sem.acquire()
      me.blocked = None
      if me.proc.dead:
        raise SimCrash()

  def others(self, me):
    """Whether any other thread can go on."""
    return any(t is not me and not t.done and not t.proc.dead and
               (t.blocked is None or not t.timed and t.blocked())
               for t in self.threads)

  def maybe_preempt(self, me, key):
    if len(self.threads) < 2:
      return
    if self.schedule is not None:
      want = self.replay.get(key)
      if want is None or want == me.tid:
        return
      for t in self.threads:
        if t.tid == want and t.runnable():
          self._yield_to(me, t)
          return
      return
    if self.preempt_p and self.sched_rng.random() < self.preempt_p:
      ready = [t for t in self.threads if t is not me and t.runnable()]
      if ready:
        t = ready[self.sched_rng.randrange(len(ready))]
        self.recorded.append((list(key), t.tid))
        self._yield_to(me, t)

  # ----------------------------------------------------------------- points
  def point(self, kind, path="", loc=None):
    """A schedulable, faultable instant.  Returns the fault to apply, if any.

    Raises SimCrash when the process dies before the effect.
    """
    me = current()
    if me is None:
      return None
    p = me.proc
    if p.dead:
      raise SimCrash()
    self.step += 1
    if self.step > self.max_steps:
      raise StepLimit()
    key = (p.pid, p.op_index, p.op_points)
    p.op_points += 1
    self.now += 0.001 + (h64(self.seed, "dt", self.step) % 1000) / 50000.0
    self.point_counts[kind] = self.point_counts.get(kind, 0) + 1
    self.maybe_preempt(me, key)
    if p.dead:
      raise SimCrash()
    f = self._match_fault(p, key, kind, path)
    if f is None:
      return None
    fk = f["kind"]
    if fk == "jump":
      self.now += f["dt"]
      self.clock_jumps += 1
      return None
    if fk == "stall":
      # A long pause: everything else may run first.
      me_ready_at = self.step + f.get("n", 40)
      self.now += f.get("dt", 30.0)
      others = lambda: (self.step >= me_ready_at or not any(
          t is not me and t.blocked is None and not t.done and not t.proc.dead
          for t in self.threads))
      self.block(others)
      return None
    if fk == "crash_before":
      self.crash(p)
      raise SimCrash()
    if fk == "err_before":
      raise injected_error(kind, path)
    return f

  def _match_fault(self, p, key, kind, path):
    lst = self._fault_index.get((p.pid, p.op_index))
    if not lst:
      return None
    for f in lst:
      if f.get("_done"):
        continue
      if "on" in f:
        # nth point of a kind / path class.
        if not match_site(f["on"], kind, path):
          continue
        f["_seen"] = f.get("_seen", -1) + 1
        if f["_seen"] != f["at"]:
          continue
      elif key[2] != f["at"]:
        continue
      if f.get("changes") and kind not in MUTATING:
        # A full disk can still be read.
        continue
      if f["kind"].startswith("err") and kind in NOT_IO:
        # Only I/O calls return errors.
        f["_done"] = True
        continue
      self._follow_ups(f, p, key)
      if f["kind"] in EFFECT_FAULTS and kind not in MUTATING:
        # The fault needs an effect: act before this point instead.
        f2 = dict(f)
        f2["kind"] = "crash_before" if f["kind"].startswith(
            "crash") else "err_before"
        f["_done"] = True
        self._count_fault(f2, p, kind, path)
        return f2
      f["_done"] = True
      self._count_fault(f, p, kind, path)
      return f
    return None

  def _follow_ups(self, f, p, key):
    """What happens soon after a fault: it lasts, or the process dies too."""
    lst = self._fault_index[(p.pid, p.op_index)]
    for k in range(1, f.get("lasts", 1)):
      lst.append({"proc": p.pid, "op": p.op_index, "at": key[2] + k,
                  "kind": "err_before", "changes": 1})
    if f.get("then"):
      lst.append({"proc": p.pid, "op": p.op_index,
                  "at": key[2] + f["then"]["at"], "kind": f["then"]["kind"]})

  def _count_fault(self, f, p, kind, path):
    name = f["kind"]
    self.fired[name] = self.fired.get(name, 0) + 1
    self.fault_sites.add((name, kind, site_class(path)))
    self.emit("FAULT", name, p.pid, p.op_index, kind, self.rel(path))
    if name not in ("jump", "stall"):
      p.faulted_in_op = True
      r = p.root()
      r.faulted_in_op = True

  def effect(self, kind, path, f=None):
    """Called after an effect took place; applies *_after faults."""
    me = current()
    if me is None:
      return
    path = os.path.normpath(os.path.join(os.getcwd(), str(path)))
    self.emit(self.step, me.tid, kind, self.rel(path))
    for h in self.effect_hooks:
      with harness():
        h(kind, str(path), me)
    if f is not None:
      if f["kind"] in ("crash_after", "crash_torn"):
        self.crash(me.proc)
        raise SimCrash()
      if f["kind"] in ("err_after", "err_torn"):
        raise injected_error(kind, path)

  def crash(self, proc):
    """Kill a process (and the Ray workers of its job)."""
    if proc.dead:
      return
    proc.dead = True
    self.emit("CRASH", proc.pid)
    for k, (loc_holder) in list(self.mutex.items()):
      if loc_holder is proc:
        del self.mutex[k]
    proc.holding.clear()
    for i, of in enumerate(list(proc.open_files.values())):
      of.tear(self.rng("tear", proc.pid, proc.op_index, i))
    proc.open_files.clear()
    for c in proc.children:
      self.crash(c)
    for h in self.crash_hooks:
      with harness():
        h(proc)

  # ------------------------------------------------- commit section mutexes
  def entry_read(self, me, location):
    """Called before a simulated process reads an entry point file.

    The code under test documents that commits by concurrent writers are not
    atomic (single writer at a time in the commit step).  The simulator thus
    serialises commit steps, recognised by their I/O pattern: the second read
    of an entry point by one mutation (or the first for metadata-only ops).
    """
    p = me.proc
    if location not in p.commit_locs:
      return
    n = p.ep_reads.get(location, 0) + 1
    p.ep_reads[location] = n
    if not (n >= 2 or p.serial_op):
      return
    if location in p.holding:
      return
    self.block(lambda: self.mutex.get(location) in (None, p))
    self.mutex[location] = p
    p.holding.add(location)

  def release_sections(self, p, location=None):
    for loc in list(p.holding):
      if location is None or loc == location:
        if self.mutex.get(loc) is p:
          del self.mutex[loc]
        p.holding.discard(loc)
        p.ep_reads.pop(loc, None)
    if location is None:
      p.ep_reads.clear()


MUTATING = {
    "mkdir", "create", "write", "close", "move", "delete", "copy", "ar_write"
}
NOT_IO = {"op", "app", "sleep", "actor", "ray_get"}
EFFECT_FAULTS = {"crash_after", "crash_torn", "err_after", "err_torn"}
ALL_FAULTS = [
    "crash_before", "crash_after", "crash_torn", "err_before", "err_after",
    "err_torn", "jump", "stall"
]


def site_class(path):
  b = str(path).rsplit("/", 1)[-1]
  if "entrypoint" in b:
    return "entrypoint"
  for k in ("index_manifest", "record_manifest", "metadata_", "change_",
            "index_"):
    if b.startswith(k):
      return k.rstrip("_")
  if b.endswith(".array_record"):
    return "record"
  if b.endswith(".pkl"):
    return "udf"
  return "other"


def match_site(on, kind, path):
  ok = True
  if on.get("kind"):
    ok = ok and kind == on["kind"]
  if on.get("site"):
    ok = ok and site_class(path) == on["site"]
  return ok


class SimIOError(OSError):
  """An injected OSError."""


class SimRecordError(RuntimeError):
  """An injected error of the ArrayRecord library."""


class UserCodeError(Exception):
  """A failure of a function the caller passed in."""


class UserFileError(UserCodeError, FileNotFoundError):
  """It has to do with a file of the caller's."""


class UserKeyError(UserCodeError, KeyError):
  """It is a mistake in the caller's function."""


class UserValueError(UserCodeError, ValueError):
  """It does not like a value."""


USER_ERRORS = [UserCodeError, UserFileError, UserKeyError, UserValueError]


def user_point(site):
  """An instant inside a function of the caller."""
  t = current()
  if t is not None:
    t.sim.point("user", site)


def injected_error(kind, path):
  if kind == "user":
    t = current()
    n = t.sim.step if t is not None else 0
    return USER_ERRORS[n % len(USER_ERRORS)](f"injected failure in {path}")
  if str(path).endswith(".array_record"):
    return SimRecordError(f"injected failure at {kind}")
  import errno
  code = errno.ENOSPC if kind in MUTATING else errno.EIO
  return SimIOError(code, f"injected failure at {kind}")
