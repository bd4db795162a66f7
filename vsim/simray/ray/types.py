"""Ray types."""
from typing import Generic, TypeVar

T = TypeVar("T")


class ObjectRef(Generic[T]):

  def __init__(self, slot):
    self._slot = slot

  def __reduce__(self):
    # References travel between simulated processes of one interpreter.
    from ray import types as m
    key = id(self._slot)
    m.REGISTRY[key] = self._slot
    return (_restore, (key,))


REGISTRY = {}


def _restore(key):
  return ObjectRef(REGISTRY[key])
