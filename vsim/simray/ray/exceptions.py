"""Ray exceptions."""


class RayError(Exception):
  pass


class WorkerCrashedError(RayError):
  pass


class RayActorError(RayError):
  pass


ActorDiedError = ActorUnavailableError = RayActorError


class GetTimeoutError(RayError, TimeoutError):
  pass


class RayTaskError(RayError):
  """An application error of a task; also an instance of its cause's type."""

  _types = {}

  def __init__(self, cause):
    Exception.__init__(self, repr(cause))
    self.cause = cause

  @classmethod
  def wrap(cls, cause):
    if isinstance(cause, RayError):
      return cause
    t = type(cause)
    sub = cls._types.get(t)
    if sub is None:
      try:
        sub = type(f"RayTaskError({t.__name__})", (RayTaskError, t),
                   {"__init__": RayTaskError.__init__, "__str__": Exception.__str__})
      except TypeError:
        sub = RayTaskError
      cls._types[t] = sub
    try:
      return sub(cause)
    except TypeError:
      return RayTaskError(cause)
