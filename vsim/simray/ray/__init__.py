"""A small simulated Ray: tasks, actors, objects and datasets.

Inside a simulated thread every task and actor runs in a simulated worker
process scheduled by the simulator and may crash; elsewhere calls run inline.
Arguments and results are copied with cloudpickle, as Ray does.
"""
import sys

import cloudpickle

from vsim.core import HarnessError, SimCrash, current

from ray.exceptions import (GetTimeoutError, RayActorError, RayError,
                            RayTaskError, WorkerCrashedError)
from ray.types import ObjectRef
from ray import types  # noqa: F401

_MAX_RETRIES = 3


def init(*args, **kwargs):
  return None


def is_initialized():
  return True


def shutdown():
  return None


def _copy(v):
  return cloudpickle.loads(cloudpickle.dumps(v))


def _resolve(v):
  """Top-level object references in arguments are replaced by values."""
  return get(v) if isinstance(v, ObjectRef) else v


class _Slot:
  """The state of a pending result."""

  def __init__(self):
    self.done = False
    self.value = None
    self.error = None

  def set(self, value):
    self.value, self.done = value, True

  def fail(self, error):
    self.error, self.done = error, True


def _worker(sim, driver, body, on_crash, ctx):
  """Start a worker process of the driver's current operation."""
  n = driver.workers_in_op = getattr(driver, "workers_in_op", 0) + 1
  proc = sim.new_proc(f"{driver.pid}/{driver.op_index}.{n}", parent=driver)
  proc.writer = False
  sim.stat("ray_workers")

  def main():
    try:
      body(proc)
    except SimCrash:
      on_crash(proc)
      raise

  sim.spawn(proc, main)
  return proc


def _merged(opts, more):
  return {**opts, **{k: v for k, v in more.items() if v is not None}}


def _retryable(opts, e):
  """Whether an application error makes the engine run a task again."""
  r = opts.get("retry_exceptions", False)
  if isinstance(r, (list, tuple)):
    return isinstance(e, tuple(r))
  return bool(r)


def _run_task(fn, blob, slot, opts):
  limit = opts.get("max_retries", _MAX_RETRIES)
  t = current()
  if t is None:
    args, kwargs = cloudpickle.loads(blob)
    try:
      slot.set(_copy(fn(*[_resolve(a) for a in args],
                        **{k: _resolve(v) for k, v in kwargs.items()})))
    except Exception as e:  # pylint: disable=broad-except
      slot.fail(RayTaskError.wrap(e))
    return
  sim, driver = t.sim, t.proc
  state = {"tries": 0}

  def again():
    if driver.dead or limit >= 0 and state["tries"] >= limit:
      return False
    state["tries"] += 1
    sim.stat("ray_task_retries")
    start()
    return True

  def start():
    finished = {"v": False}

    def body(proc):
      args, kwargs = cloudpickle.loads(blob)
      try:
        v = _copy(fn(*[_resolve(a) for a in args],
                     **{k: _resolve(v) for k, v in kwargs.items()}))
      except Exception as e:  # pylint: disable=broad-except
        finished["v"] = True
        if not (_retryable(opts, e) and again()):
          slot.fail(RayTaskError.wrap(e))
        return
      finished["v"] = True
      slot.set(v)

    def on_crash(proc):
      if finished["v"] or driver.dead:
        return
      finished["v"] = True
      if not again():
        slot.fail(WorkerCrashedError("worker died"))

    _worker(sim, driver, body, on_crash, None)

  start()


class RemoteFunction:

  def __init__(self, fn, opts=None):
    self._fn = fn
    self._opts = opts or {}

  def options(self, **kwargs):
    return RemoteFunction(self._fn, _merged(self._opts, kwargs))

  def remote(self, *args, **kwargs):
    slot = _Slot()
    _run_task(self._fn, cloudpickle.dumps((args, kwargs)), slot, self._opts)
    n = self._opts.get("num_returns", 1)
    if isinstance(n, int) and n > 1:
      return [ObjectRef(_Part(slot, i)) for i in range(n)]
    return ObjectRef(slot)

  def __call__(self, *args, **kwargs):
    raise TypeError("Remote functions cannot be called directly.")


class _Part:
  """One of several results of a task."""

  def __init__(self, slot, i):
    self._slot = slot
    self._i = i

  @property
  def done(self):
    return self._slot.done

  @property
  def error(self):
    return self._slot.error

  @property
  def value(self):
    return self._slot.value[self._i]


class _ActorMethod:

  def __init__(self, handle, name):
    self._handle = handle
    self._name = name

  def options(self, **kwargs):
    return self

  def remote(self, *args, **kwargs):
    return self._handle._submit(self._name, args, kwargs)


class ActorHandle:

  def __init__(self, cls, args, kwargs, opts=None):
    opts = opts or {}
    self._queue = []
    self._dead = None
    self._obj = None
    self._current = None
    self._proc = None
    self._restarts = opts.get("max_restarts", 0)
    self._retries = opts.get("max_task_retries", 0)
    blob = cloudpickle.dumps((args, kwargs))
    t = current()
    self._sim = t.sim if t is not None else None
    if t is None:
      a, k = cloudpickle.loads(blob)
      self._obj = cls(*a, **k)
      return
    driver = t.proc

    def body(proc):
      a, k = cloudpickle.loads(blob)
      try:
        obj = cls(*[_resolve(x) for x in a], **k)
      except Exception as e:  # pylint: disable=broad-except
        self._dead = RayActorError(f"actor init failed: {e!r}")
        self._fail_all()
        return
      while True:
        proc.sim.block(lambda: self._queue or proc.parent.ended_op(proc))
        if not self._queue:
          return
        self._current = item = self._queue.pop(0)
        name, b, slot, _ = item
        ar, kw = cloudpickle.loads(b)
        proc.sim.point("actor")
        try:
          slot.set(_copy(getattr(obj, name)(*[_resolve(x) for x in ar], **kw)))
        except Exception as e:  # pylint: disable=broad-except
          slot.fail(RayTaskError.wrap(e))
        self._current = None

    def on_crash(proc):
      if self._dead is not None:
        return
      died = RayActorError("The actor died unexpectedly")
      pending, self._current = self._current, None
      items = ([pending] if pending is not None and not pending[2].done else
               []) + self._queue
      self._queue = []
      if self._restarts == 0 or driver.dead:
        self._dead = died
      # A restarted actor has a new state; calls run again only if allowed.
      for name, b, slot, left in items:
        if self._dead is not None or left == 0:
          slot.fail(died)
        else:
          self._queue.append((name, b, slot, left - 1))
      if self._dead is None:
        self._restarts -= 1
        t.sim.stat("ray_actor_restarts")
        start()

    def start():
      self._proc = _worker(t.sim, driver, body, on_crash, None)

    start()

  def _fail_all(self):
    for _, _, slot, _ in self._queue:
      if not slot.done:
        slot.fail(self._dead)
    self._queue.clear()

  def _kill(self):
    if self._dead is not None:
      return
    self._dead = RayActorError("The actor was killed")
    if self._current is not None and not self._current[2].done:
      self._current[2].fail(self._dead)
    self._fail_all()
    if self._proc is not None:
      self._sim.crash(self._proc)

  def _submit(self, name, args, kwargs):
    slot = _Slot()
    blob = cloudpickle.dumps((args, kwargs))
    if self._sim is None:
      a, k = cloudpickle.loads(blob)
      try:
        slot.set(_copy(getattr(self._obj, name)(*[_resolve(x) for x in a],
                                                **k)))
      except Exception as e:  # pylint: disable=broad-except
        slot.fail(RayTaskError.wrap(e))
      return ObjectRef(slot)
    if self._dead is not None:
      slot.fail(self._dead)
    else:
      self._queue.append((name, blob, slot, self._retries))
    return ObjectRef(slot)

  def __getattr__(self, name):
    if name.startswith("_"):
      raise AttributeError(name)
    return _ActorMethod(self, name)


class ActorClass:

  def __init__(self, cls, opts=None):
    self._cls = cls
    self._opts = opts or {}

  def options(self, **kwargs):
    return ActorClass(self._cls, _merged(self._opts, kwargs))

  def remote(self, *args, **kwargs):
    return ActorHandle(self._cls, args, kwargs, self._opts)


def remote(*args, **kwargs):
  if len(args) == 1 and not kwargs and callable(args[0]):
    return _remote(args[0], {})
  return lambda target: _remote(target, kwargs)


def _remote(target, opts):
  return (ActorClass if isinstance(target, type) else RemoteFunction)(target,
                                                                      opts)


def put(value):
  slot = _Slot()
  slot.set(_copy(value))
  return ObjectRef(slot)


def _until(t, cond, timeout):
  """Wait for a condition, at most for a (simulated) time."""
  if timeout is None:
    t.sim.block(cond)
    return
  end = t.sim.now + timeout
  t.timed = True
  while not cond() and t.sim.now < end:
    t.sim.point("ray_get")
    # Time passes while all others wait too.
    t.sim.block(lambda: cond() or t.sim.now >= end or not t.sim.others(t))
    if not cond() and not t.sim.others(t):
      t.sim.now = max(t.sim.now, end)
  t.timed = False


def get(refs, *, timeout=None):
  t = current()
  end = None if t is None or timeout is None else t.sim.now + timeout
  if isinstance(refs, ObjectRef):
    return _get_one(refs, end)
  if not isinstance(refs, (list, tuple)):
    raise TypeError(f"Invalid type of object refs: {type(refs)}")
  return [_get_one(r, end) for r in refs]


def _get_one(ref, end=None):
  slot = ref._slot
  t = current()
  if t is not None:
    t.sim.point("ray_get")
    _until(t, lambda: slot.done, None if end is None else end - t.sim.now)
    if not slot.done:
      raise GetTimeoutError("Get timed out")
  elif not slot.done:
    raise HarnessError("ray.get outside a simulation would block forever")
  if slot.error is not None:
    raise slot.error
  return _copy(slot.value)


def wait(refs, *, num_returns=1, timeout=None, fetch_local=True):
  t = current()
  if t is not None:
    t.sim.point("ray_get")
    _until(t, lambda: sum(r._slot.done for r in refs) >= num_returns, timeout)
  ready = [r for r in refs if r._slot.done][:num_returns]
  return ready, [r for r in refs if r not in ready]


def kill(actor, *, no_restart=True):
  actor._kill()


def cancel(ref, *, force=False, recursive=True):
  return None


def method(*args, **kwargs):
  if len(args) == 1 and not kwargs and callable(args[0]):
    return args[0]
  return lambda f: f


def available_resources():
  return {"CPU": 8.0}


def cluster_resources():
  return {"CPU": 8.0}


def nodes():
  return [{"Alive": True, "Resources": {"CPU": 8.0}}]


from ray import data, util  # noqa: E402,F401  pylint: disable=wrong-import-position
