"""Exceptions with Ray's names and inheritance, as far as callers can tell."""
from dst import kernel as _k


class RayError(Exception):
    pass


class RayTaskError(RayError):
    def __init__(self, function_name="?", traceback_str="", cause=None):
        self.function_name = function_name
        self.traceback_str = traceback_str
        self.cause = cause
        super().__init__(f"{function_name}: {cause!r}")

    def as_instanceof_cause(self):
        return self

    @classmethod
    def wrap(cls, cause, name):
        if isinstance(cause, RayError):
            return cause
        ccls = cause.__class__
        try:
            class _E(cls, ccls):
                def __init__(self, cause):
                    self.cause = cause
                    self.function_name = name
                    self.args = (cause,)

                def __str__(self):
                    return f"{name}: {self.cause!r}"

                def __reduce__(self):
                    return (_rebuild, (self.cause, name))

            _E.__name__ = _E.__qualname__ = f"RayTaskError({ccls.__name__})"
            return _E(cause)
        except TypeError:
            return cls(name, "", cause)


def _rebuild(cause, name):
    return RayTaskError.wrap(cause, name)


class WorkerCrashedError(RayError):
    def __str__(self):
        return "The worker died unexpectedly while executing this task (simulated)."


class OutOfMemoryError(RayError):
    pass


class ObjectLostError(RayError):
    pass


class ObjectStoreFullError(RayError):
    pass


class OwnerDiedError(ObjectLostError):
    pass


class ObjectReconstructionFailedError(ObjectLostError):
    pass


class NodeDiedError(RayError):
    pass


class RayActorError(RayError):
    pass


class ActorDiedError(RayActorError):
    pass


class RaySystemError(RayError):
    pass


class UnserializableException(RayError):
    pass


class TaskCancelledError(RayError):
    pass


class TaskUnschedulableError(RayError):
    pass


class GetTimeoutError(RayError, TimeoutError):
    pass


for _n, _v in list(globals().items()):
    if isinstance(_v, type) and issubclass(_v, RayError):
        _k.EXC[_n] = _v
