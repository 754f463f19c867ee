"""Stand-in for the `ray` package that routes every call to the deterministic simulator."""
import functools

from dst import kernel as _k
from ray import exceptions
from ray.exceptions import RayTaskError  # noqa: F401

__version__ = "2.60.0"
SIMULATED = True


class ObjectRef:
    __slots__ = ("oid",)

    def __init__(self, oid):
        self.oid = oid

    def __hash__(self):
        return hash(("ObjectRef", self.oid))

    def __eq__(self, other):
        return isinstance(other, ObjectRef) and other.oid == self.oid

    def __repr__(self):
        return f"ObjectRef({self.oid:048x})"

    def hex(self):
        return f"{self.oid:048x}"

    def binary(self):
        return self.oid.to_bytes(24, "big")

    def future(self):
        raise _k.SimUnsupported("ObjectRef.future")

    def __reduce__(self):
        return (ObjectRef, (self.oid,))


def _auto_init():
    c = _k.current()
    if not c.inited:
        init()
    return c


def is_initialized():
    return _k.current().inited


def init(*args, **kwargs):
    c = _k.current()
    if c.inited and not kwargs.get("ignore_reinit_error"):
        raise RuntimeError("Maybe you called ray.init twice by accident? (simulated)")
    c.api("init")
    c.inited = True
    c.init_calls += 1
    c.log("init")
    return {"address": "sim"}


def shutdown(*args, **kwargs):
    _k.current().inited = False


def put(value, **kwargs):
    c = _auto_init()
    c.api("put")
    if isinstance(value, ObjectRef):
        raise TypeError("Calling 'put' on an ray.ObjectRef is not allowed.")
    return ObjectRef(c.put(value).id)


def get(refs, *, timeout=None, **kwargs):
    c = _auto_init()
    c.api("get")
    single = isinstance(refs, ObjectRef)
    if not single and not isinstance(refs, list):
        raise ValueError("Invalid type of object refs: 'object_refs' must either be an ObjectRef or a list of them.")
    lst = [refs] if single else refs
    for r in lst:
        if not isinstance(r, ObjectRef):
            raise TypeError(f"Attempting to call `get` on the value {r!r}, which is not an ray.ObjectRef.")
    if timeout is not None:
        end = c.now + timeout
        fl = [False]
        c.after(timeout, lambda: fl.__setitem__(0, True))
        c.block(lambda: fl[0] or all(c.objs[r.oid].ready for r in lst), "get")
        if not all(c.objs[r.oid].ready for r in lst):
            c.fire("get_timeout")
            raise exceptions.GetTimeoutError(f"Get timed out at {end}")
    out = []
    for r in lst:
        o = c.ensure(r.oid)
        out.append(c.fetch(o))
    return out[0] if single else out


def wait(refs, *, num_returns=1, timeout=None, fetch_local=True):
    c = _auto_init()
    c.api("wait")
    if isinstance(refs, ObjectRef):
        raise TypeError("wait() expected a list of ray.ObjectRef, got a single ray.ObjectRef")
    if not isinstance(refs, list):
        raise TypeError(f"wait() expected a list of ray.ObjectRef, got {type(refs)}")
    for r in refs:
        if not isinstance(r, ObjectRef):
            raise TypeError("wait() expected a list of ray.ObjectRef")
    if timeout is not None and timeout < 0:
        raise ValueError("The 'timeout' argument must be nonnegative.")
    if len(refs) == 0:
        return ([], [])
    if len({r.oid for r in refs}) != len(refs):
        raise ValueError("Wait requires a list of unique object refs.")
    if num_returns <= 0:
        raise ValueError(f"Invalid number of objects to return {num_returns}.")
    if num_returns > len(refs):
        raise ValueError("num_returns cannot be greater than the number of ray.ObjectRefs provided to ray.wait.")
    fl = [False]
    if timeout is not None:
        c.after(timeout, lambda: fl.__setitem__(0, True))
    objs = [c.objs[r.oid] for r in refs]

    def enough():
        if fl[0]:
            return True
        k = 0
        for o in objs:
            if o.ready:
                k += 1
                if k >= num_returns:
                    return True
        return False

    c.block(enough, "wait")
    ready, rest = [], []
    for r in refs:
        if c.objs[r.oid].ready and len(ready) < num_returns:
            ready.append(r)
        else:
            rest.append(r)
    if timeout is not None and len(ready) < num_returns:
        c.fire("wait_timeout")
    return ready, rest


def cancel(ref, **kwargs):
    c = _k.current()
    o = c.objs[ref.oid]
    t = o.producer
    if t is not None and t.state == "pending" and t in c.pending:
        c.pending.remove(t)
        c._complete_error(t, exceptions.TaskCancelledError("cancelled"))


class RemoteFunction:
    def __init__(self, fn, opts):
        self._function = fn
        self._opts = opts
        functools.update_wrapper(self, fn)

    def __call__(self, *a, **k):
        raise TypeError(
            f"Remote functions cannot be called directly. Instead of running '{self._function.__name__}()', "
            f"try '{self._function.__name__}.remote()'."
        )

    def remote(self, *args, **kwargs):
        c = _auto_init()
        c.api("remote")
        t = c.submit(self._function, self._function.__name__, list(args), kwargs, self._opts)
        refs = [ObjectRef(o.id) for o in t.outs]
        return refs[0] if len(refs) == 1 else refs

    def options(self, **opts):
        return RemoteFunction(self._function, {**self._opts, **_norm(opts)})

    def bind(self, *a, **k):
        raise _k.SimUnsupported("bind")


def _norm(o):
    known = {"num_cpus", "memory", "max_retries", "num_returns", "retry_exceptions"}
    return {k: v for k, v in o.items() if k in known}


def remote(*args, **kwargs):
    def deco(f):
        if isinstance(f, type):
            raise _k.SimUnsupported("actors")
        return RemoteFunction(f, _norm(kwargs))

    if len(args) == 1 and not kwargs and callable(args[0]):
        return deco(args[0])
    return deco


def cluster_resources():
    c = _auto_init()
    c.api("cluster_resources")
    return c.resources()


def available_resources():
    c = _auto_init()
    c.api("available_resources")
    return c.free_resources()


def nodes():
    c = _auto_init()
    return [
        {
            "NodeID": f"{n.i:056x}", "Alive": n.alive, "NodeManagerHostname": f"sim{n.i}",
            "NodeManagerAddress": f"10.0.0.{n.i + 1}", "Resources": {"CPU": float(n.cpus), "memory": float(n.memory)},
        }
        for n in c.nodes
    ]


def get_runtime_context():
    raise _k.SimUnsupported("get_runtime_context")


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    raise _k.SimUnsupported(f"ray.{name}")


import ray.util as util  # noqa: E402,F401
