"""A part of ray.util."""
import ray


class ActorPool:
  """Runs calls on a pool of actors."""

  def __init__(self, actors):
    self._idle = list(actors)
    self._pending = []  # (call index, ref, actor)
    self._todo = []
    self._next = 0
    self._yielded = 0
    self._results = {}

  def submit(self, fn, value):
    if self._idle:
      a = self._idle.pop(0)
      self._pending.append((self._next, fn(a, value), a))
      self._next += 1
    else:
      self._todo.append((fn, value))

  def has_next(self):
    return bool(self._pending or self._todo or self._results)

  def _collect(self):
    ready, _ = ray.wait([r for _, r, _ in self._pending])
    for item in list(self._pending):
      if item[1] in ready:
        self._pending.remove(item)
        self._idle.append(item[2])
        if self._todo:
          self.submit(*self._todo.pop(0))
        return item
    return None

  def get_next(self, timeout=None):
    while self._yielded not in self._results:
      i, ref, _ = self._collect()
      self._results[i] = ref
    ref = self._results.pop(self._yielded)
    self._yielded += 1
    return ray.get(ref)

  def get_next_unordered(self, timeout=None):
    return ray.get(self._collect()[1])

  def map(self, fn, values):
    for v in values:
      self.submit(fn, v)
    while self.has_next():
      yield self.get_next()

  def map_unordered(self, fn, values):
    for v in values:
      self.submit(fn, v)
    while self._pending:
      yield self.get_next_unordered()
