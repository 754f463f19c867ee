"""Deterministic simulator of the cluster the code under test runs on.

One process, virtual time, one PRNG stream per decision site.  Everything the code
under test can observe of Ray (completion order, cluster size, worker death, object loss,
memory pressure, read-only deserialised arguments) is decided here from an explicit JSON
`spec`, so that a spec is one exactly repeatable execution.

Decisions are *keyed* (hash of seed, site, index) instead of drawn from one sequential
stream: dropping a fault or an operation while minimising leaves the other decisions as
they were.
"""
from __future__ import annotations

import hashlib
import heapq
import io
import itertools
import pickle
import sys
import threading
import traceback

import cloudpickle


def hrand(*key) -> float:
    """Uniform [0,1) from a key (the only source of randomness in the simulator)."""
    h = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
    return int.from_bytes(h, "big") / 2**64


def hint(n: int, *key) -> int:
    return int(hrand(*key) * n) if n > 0 else 0


class SimDeadlock(BaseException):
    """The driver waits for something that can never happen (a real cluster hangs)."""


class SimStepLimit(BaseException):
    """More scheduling steps than the bound: no progress."""


class SimUnsupported(BaseException):
    """The code used part of the Ray API that the simulator does not model."""


class HarnessError(BaseException):
    """The harness itself is wrong: must never be reported as a violation."""


# ---------------------------------------------------------------- object store
def dumps(obj):
    bufs = []
    data = cloudpickle.dumps(obj, protocol=5, buffer_callback=lambda b: bufs.append(bytes(b.raw())))
    return data, bufs


def loads(blob):
    # bytes buffers are read-only, so arrays come back read-only as they do from plasma
    return pickle.loads(blob[0], buffers=blob[1])


class Obj:
    __slots__ = ("blob", "error", "id", "is_put", "lost", "producer", "ready")

    def __init__(self, oid, producer=None):
        self.id = oid
        self.blob = None
        self.error = None
        self.ready = False
        self.producer = producer
        self.is_put = producer is None
        self.lost = False


class Task:
    def __init__(self, tid, fn, blob, name, opts, deps, caller):
        self.id = tid
        self.fn = fn
        self.blob = blob
        self.name = name
        self.opts = opts
        self.deps = deps
        self.caller = caller
        self.attempt = 0
        self.left = opts["max_retries"]
        self.state = "pending"
        self.node = None
        self.outs = []
        self.gen = 0  # bumps when the running attempt is invalidated (node death)
        self.executions = 0
        self.go = not deps


class Node:
    def __init__(self, i, cpus, memory):
        self.i = i
        self.cpus = cpus
        self.memory = memory
        self.free_cpu = cpus
        self.free_mem = memory
        self.alive = True


class Cluster:
    MAX_STEPS = 200_000

    def __init__(self, spec=None):
        spec = dict(spec or {})
        self.spec = spec
        self.seed = spec.get("seed", 0)
        self.mode = spec.get("mode", "random")  # random | fifo | lifo
        self.think = spec.get("think", 0.3)
        cpus = spec.get("cpus", 4)
        memory = spec.get("memory", 8 * 2**30)
        n_nodes = max(1, min(spec.get("nodes", 1), cpus))
        per = [cpus // n_nodes + (1 if i < cpus % n_nodes else 0) for i in range(n_nodes)]
        self.nodes = [Node(i, c, memory // n_nodes) for i, c in enumerate(per)]
        for n, m in zip(self.nodes, spec.get("node_memory") or []):  # uneven nodes
            n.memory = n.free_mem = m
        self.inited = spec.get("preinit", True)
        self.init_calls = 0
        self.now = 0.0
        self.steps = 0
        self.q = []
        self.seq = itertools.count()
        self.tasks = []
        self.objs = {}
        self.pending = []
        self.api_calls = 0
        self.trace = []
        self.completions = []
        self.fired = {}
        self.n_puts = 0
        self.depth = 0
        self.threads = None
        self.infeasible = False
        self.seen_infeasible = -1
        self.zero_cpu = False
        self.notes = set()
        self.victim = None  # caller thread whose tasks and puts `victim_faults` refer to
        self.victim_faults = []
        self.victim_n = {"task": 0, "put": 0}
        self.faults = {}
        for f in spec.get("faults", []):
            key = (f["kind"], f.get("i"))
            self.faults.setdefault(key, []).append(f)

    # -------------------------------------------------------------- bookkeeping
    def fire(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1

    def log(self, *ev):
        self.trace.append((round(self.now, 6), *ev))

    def after(self, dt, fn):
        heapq.heappush(self.q, (self.now + dt, next(self.seq), fn))

    def step(self):
        """Process one event. False when there is none."""
        self._place()
        if not self.q:
            return False
        self.steps += 1
        if self.steps > self.spec.get("max_steps", self.MAX_STEPS):
            raise SimStepLimit(f"{self.steps} scheduling steps")
        t, _, fn = heapq.heappop(self.q)
        self.now = max(self.now, t)
        fn()
        return True

    def api(self, name):
        """Entry of every API call: the caller thinks for a while, others may proceed."""
        self.api_calls += 1
        if self.depth:  # inside a worker
            return
        if self.threads is not None:
            self.threads.yield_point("api:" + name)
        r = hrand(self.seed, "think", self.api_calls)
        if r < self.think:
            until = self.now + 3.0 * r / max(self.think, 1e-9)
            while self.q or self.pending:
                self._place()
                if not self.q or self.q[0][0] > until:
                    break
                self.step()
            self.now = max(self.now, until)

    def block(self, pred, what):
        """The caller waits until pred() holds."""
        while not pred():
            if self.threads is not None and not self.depth and self.threads.others_runnable():
                if self.q and hrand(self.seed, "blk", self.steps, self.api_calls, self.threads.switches) < 0.5:
                    self.step()
                else:
                    self.threads.park(pred)
                continue
            if not self.step():
                if pred():
                    return
                if self.threads is not None and not self.depth and self.threads.others_alive():
                    self.threads.park(pred)
                    continue
                raise SimDeadlock(f"waiting for {what}; pending tasks: {[t.name for t in self.pending][:5]}")

    # -------------------------------------------------------------- objects
    def new_obj(self, producer=None):
        o = Obj(len(self.objs), producer)
        self.objs[o.id] = o
        return o

    def _aim(self, what, real):
        """The n-th task (put) of the victim is about to be issued: give it its faults."""
        if self.victim is None or self.threads is None or self.depth or self.threads.cur.i != self.victim:
            return
        n = self.victim_n[what]
        self.victim_n[what] += 1
        for f in self.victim_faults:
            if (f["kind"] in ("put_fail", "lose_put")) == (what == "put") and f["kind"] != "node_down" and f.get("i") == n:
                self.faults.setdefault((f["kind"], real), []).append(dict(f))

    def put(self, value):
        i = self.n_puts
        self.n_puts += 1
        self._aim("put", i)
        if ("put_fail", i) in self.faults:
            self.fire("put_fail")
            self.log("put_fail", i)
            raise EXC["ObjectStoreFullError"]("simulated: object store is full")
        o = self.new_obj()
        o.blob = dumps(value)
        o.ready = True
        if ("lose_put", i) in self.faults:
            o.lost = True
        return o

    def fetch(self, o):
        """Value of a ready object, as a fresh deserialised copy, or raises its error."""
        if o.lost:
            if o.is_put:
                self.fire("lose_put")
                raise EXC["ObjectLostError"](f"simulated: object {o.id} was lost and can not be reconstructed")
            raise HarnessError("lost task output fetched before reconstruction")
        if o.error is not None:
            raise o.error
        try:
            return loads(o.blob)
        except Exception as e:
            raise EXC["RaySystemError"](f"System error: {e!r} while restoring an object") from e

    def ensure(self, oid):
        """Wait until an object is available (reconstructing it if it was lost)."""
        o = self.objs[oid]
        self.block(lambda: o.ready, f"object {oid}")
        return o

    # -------------------------------------------------------------- tasks
    def submit(self, fn, name, args, kwargs, opts):
        o = dict(num_cpus=1, memory=0, max_retries=3, num_returns=1, retry_exceptions=False)
        o.update({k: v for k, v in opts.items() if v is not None})
        if o["max_retries"] == -1:
            o["max_retries"] = 10**6
        if isinstance(o["memory"], float) and (o["memory"] != o["memory"]):
            raise ValueError("memory must be a number")
        if o["memory"] < 0 or o["num_cpus"] < 0:
            raise ValueError("The resource quantities must be non-negative")
        deps = [a.oid for a in list(args) + list(kwargs.values()) if hasattr(a, "oid") and type(a).__name__ == "ObjectRef"]
        blob = dumps((args, kwargs))
        t = Task(len(self.tasks), fn, blob, name, o, deps, threading.get_ident() if self.threads else None)
        n = o["num_returns"]
        n = 1 if not isinstance(n, int) else n
        t.outs = [self.new_obj(t) for _ in range(n)]
        self._aim("task", t.id)
        self.tasks.append(t)
        self.pending.append(t)
        self.log("submit", t.id, t.name)
        if not o["num_cpus"] > 0:
            self.zero_cpu = True
        return t

    def _dur(self, t):
        base = 0.1 + hrand(self.seed, "dur", t.id, t.attempt)
        if self.mode == "fifo":
            base = 1.0
        elif self.mode == "lifo":
            base = 1.0 / (1 + t.id)
        if hrand(self.seed, "strag", t.id, t.attempt) < self.spec.get("stragglers", 0.05) and self.mode == "random":
            base *= 40
            self.fire("straggler")
        for f in self.faults.get(("slow", t.id), []):
            base *= f.get("factor", 100)
            self.fire("slow")
        return base

    def _deps_ready(self, t):
        t.go = all(self.objs[d].ready for d in t.deps)
        return t.go

    def _place(self):
        progress = True
        while progress and self.pending:
            progress = False
            if not self.zero_cpu and self.seen_infeasible == len(self.tasks) and not any(
                    n.alive and n.free_cpu > 0 for n in self.nodes):
                return
            self.seen_infeasible = len(self.tasks)
            cand = [t for t in self.pending if t.go or self._deps_ready(t)]
            if not cand:
                return
            if self.mode == "random" and len(cand) > 1:
                k = hint(len(cand), self.seed, "pick", len(self.completions), len(cand))
                cand = cand[k:] + cand[:k]
            for t in cand:
                need_c, need_m = t.opts["num_cpus"], t.opts["memory"]
                nodes = [n for n in self.nodes if n.alive and n.free_cpu >= need_c and n.free_mem >= need_m]
                if not nodes:
                    if not any(n.alive and n.cpus >= need_c and n.memory >= need_m for n in self.nodes):
                        if not self.infeasible:
                            self.fire("infeasible_request")
                            self.log("infeasible", t.id, t.name)
                        self.infeasible = True
                    continue
                n = nodes[hint(len(nodes), self.seed, "node", t.id, t.attempt)]
                n.free_cpu -= need_c
                n.free_mem -= need_m
                t.node = n
                t.state = "running"
                self.pending.remove(t)
                gen = t.gen
                self.log("start", t.id, t.attempt, n.i)
                self.after(self._dur(t), lambda t=t, gen=gen: self._finish(t, gen))
                progress = True
                break

    def _release(self, t):
        if t.node is not None:
            t.node.free_cpu += t.opts["num_cpus"]
            t.node.free_mem += t.opts["memory"]
            t.node = None

    def _retry(self, t, why, unlimited=False):
        """A system failure hit the running attempt."""
        t.attempt += 1
        if unlimited or t.left > 0:
            if not unlimited:
                t.left -= 1
            t.state = "pending"
            self.log("retry", t.id, t.attempt, why)
            self.after(0.05, lambda: self.pending.append(t))
            return True
        return False

    def _fault_here(self, kind, t):
        for f in self.faults.get((kind, t.id), []):
            a = f.get("attempt", 0)
            if a == "all" or a == t.attempt or (isinstance(a, list) and t.attempt in a):
                return f
        return None

    def _finish(self, t, gen):
        if t.gen != gen or t.state != "running":
            return
        f = self._fault_here("crash", t)
        o = self._fault_here("oom", t)
        when = (f or {}).get("when", "after")
        if f is not None and when == "before":
            self._release(t)
            self.fire("crash_before")
            self.log("crash", t.id, t.attempt, when)
            if not self._retry(t, "crash"):
                self._complete_error(t, EXC["WorkerCrashedError"]())
            return
        b = self._fault_here("body", t)
        if b is None:
            value, err = self._execute(t)
        else:
            with CodeFault() as cf:  # count the calls of the code under test, then fail one of them
                self._execute(t)
            cf.at = min(int(b.get("at", 0.5) * cf.n), cf.n - 1) + 1
            cf.exc = exc_class(b.get("exc", "MemoryError"))
            with cf:
                value, err = self._execute(t)
            if cf.fired:
                self.fire("body_exception")
                self.log("body", t.id, cf.at, b.get("exc", "MemoryError"))
        self._release(t)
        if f is not None:
            self.fire("crash_after")
            self.log("crash", t.id, t.attempt, when)
            if not self._retry(t, "crash"):
                self._complete_error(t, EXC["WorkerCrashedError"]())
            return
        if o is not None:
            self.fire("oom_kill")
            self.log("oom", t.id, t.attempt)
            if o.get("attempt", 0) == "all":
                self._complete_error(t, EXC["OutOfMemoryError"]("simulated: worker killed for memory"))
            else:
                self._retry(t, "oom", unlimited=True)
            return
        r = self._fault_here("raise", t)
        if r is not None and err is None:
            self.fire("app_exception")
            self.log("raise", t.id, t.attempt, r.get("exc", "MemoryError"))
            cls = exc_class(r.get("exc", "MemoryError"))
            err = wrap_task_error(cls("simulated application failure"), t.name)
        if err is not None:
            self._complete_error(t, err)
            return
        n = t.opts["num_returns"]
        vals = [value] if len(t.outs) == 1 and n in (1, "dynamic") else list(value)
        for obj, v in zip(t.outs, vals, strict=True):
            obj.blob = dumps(v)
            obj.error = None
            obj.ready = True
        t.state = "done"
        self.completions.append(t.id)
        self.log("done", t.id, t.attempt)
        g = self._fault_here("lose_return", t)
        if g is not None and not g.get("_used"):
            g["_used"] = True
            self.fire("lose_return")
            for obj in t.outs:  # node holding it died: lineage reconstruction re-runs the task
                obj.ready = False
                obj.blob = None
            t.attempt += 1
            t.state = "pending"
            t.left = t.opts["max_retries"]
            self.pending.append(t)
            self.log("lose_return", t.id)
        for f in self.faults.get(("node_down", len(self.completions)), []):
            if not f.get("_used"):
                f["_used"] = True
                self._node_down(f)

    def _node_down(self, f):
        alive = [n for n in self.nodes if n.alive]
        if len(alive) < 2:
            return
        n = alive[1 + hint(len(alive) - 1, self.seed, "victim", len(self.completions))]
        # a cluster that loses its only large node cannot run what was sized for it:
        # requests pending then wait for a new node, which is not the library's doing
        if any(getattr(n, k) > max(getattr(m, k) for m in alive if m is not n) for k in ("cpus", "memory")):
            return
        n.alive = False
        self.fire("node_down")
        self.log("node_down", n.i)
        for t in self.tasks:
            if t.state == "running" and t.node is n:
                t.gen += 1
                self._release(t)
                if not self._retry(t, "node_down"):
                    self._complete_error(t, EXC["WorkerCrashedError"]())

    def _complete_error(self, t, err):
        for obj in t.outs:
            obj.error = err
            obj.ready = True
        t.state = "done"
        self.completions.append(t.id)
        self.log("failed", t.id, type(err).__name__)

    def _execute(self, t):
        """Run the task body on a fresh deserialised copy of its arguments."""
        t.executions += 1
        self.depth += 1
        tr = sys.gettrace()
        sys.settrace(None)
        try:
            try:
                args, kwargs = loads(t.blob)
                args = [self._resolve(a) for a in args]
                kwargs = {k: self._resolve(v) for k, v in kwargs.items()}
            except SimDeadlock:
                raise
            except EXC["RayError"] as e:  # a dependency failed: the error propagates
                return None, e
            except Exception as e:  # the arguments cannot be restored in the worker: an error of this task
                return None, wrap_task_error(e, t.name)
            try:
                return t.fn(*args, **kwargs), None
            except SimDeadlock:
                raise
            except SystemExit:
                return None, EXC["WorkerCrashedError"]()
            except Exception as e:
                err = wrap_task_error(e, t.name)
                try:  # errors travel pickled
                    loads(dumps(e))
                except Exception as x:
                    err = EXC["UnserializableException"](f"Failed to deserialize exception: {x!r}; original: {e!r}")
                return None, err
        finally:
            self.depth -= 1
            sys.settrace(tr)

    def _resolve(self, a):
        if type(a).__name__ == "ObjectRef" and hasattr(a, "oid"):
            return self.fetch(self.ensure(a.oid))
        return a

    # -------------------------------------------------------------- reporting
    def resources(self):
        alive = [n for n in self.nodes if n.alive]
        d = {"CPU": float(sum(n.cpus for n in alive)), "memory": float(sum(n.memory for n in alive)),
             "object_store_memory": 2.0e9}
        for n in alive:
            d[f"node:10.0.0.{n.i + 1}"] = 1.0
        return d

    def free_resources(self):
        alive = [n for n in self.nodes if n.alive]
        d = {"CPU": float(sum(n.free_cpu for n in alive)), "memory": float(sum(n.free_mem for n in alive)),
             "object_store_memory": 2.0e9}
        return {k: v for k, v in d.items() if v}

    def signature(self):
        h = hashlib.blake2b(repr([e[1:] for e in self.trace]).encode(), digest_size=8)
        return h.hexdigest()


EXC: dict = {}


def wrap_task_error(cause, name):
    return EXC["RayTaskError"].wrap(cause, name)


def exc_class(name):
    if name == "LinAlgError":
        import numpy as np

        return np.linalg.LinAlgError
    if name == "QhullError":
        from scipy.spatial import QhullError

        return QhullError
    return {"MemoryError": MemoryError, "OSError": OSError, "RuntimeError": RuntimeError,
            "ValueError": ValueError, "KeyError": KeyError, "TimeoutError": TimeoutError,
            "StopIteration": StopIteration, "AttributeError": AttributeError,
            "IndexError": IndexError, "ZeroDivisionError": ZeroDivisionError}[name]


class CodeFault:
    """Counts the calls of functions of the code under test, and makes the `at`-th of them raise."""

    TOOL = 4
    MARK = "/rxn_network/"

    def __init__(self):
        self.n = self.at = 0
        self.exc = MemoryError
        self.fired = False

    def _start(self, code, offset):
        if self.MARK not in code.co_filename:
            return sys.monitoring.DISABLE
        self.n += 1
        if self.n == self.at:
            self.fired = True
            raise self.exc("simulated failure inside the task")
        return None

    def __enter__(self):
        m = sys.monitoring
        self.n = 0
        m.use_tool_id(self.TOOL, "dst")
        m.register_callback(self.TOOL, m.events.PY_START, self._start)
        m.set_events(self.TOOL, m.events.PY_START)
        m.restart_events()
        return self

    def __exit__(self, *exc):
        m = sys.monitoring
        m.set_events(self.TOOL, 0)
        m.register_callback(self.TOOL, m.events.PY_START, None)
        m.free_tool_id(self.TOOL)


# ------------------------------------------------------------------ caller threads
class Threads:
    """Real threads of which exactly one runs at a time; who runs is decided by key."""

    def __init__(self, cluster, seed, preempt=0.0, files=()):
        self.cluster = cluster
        self.seed = seed
        self.preempt = preempt
        self.files = files
        self.slots = []
        self.cur = None
        self.switches = 0
        self.points = 0
        self.preemptions = 0
        self.order = []
        self.main = threading.Semaphore(0)
        self.limit = 400_000

    class Slot:
        def __init__(self, i, fn):
            self.i, self.fn = i, fn
            self.sem = threading.Semaphore(0)
            self.done = False
            self.pred = None
            self.result = None
            self.error = None

    def run(self, fns):
        self.slots = [self.Slot(i, f) for i, f in enumerate(fns)]
        ts = []
        for s in self.slots:
            th = threading.Thread(target=self._body, args=(s,), daemon=True)
            ts.append(th)
            th.start()
        self.cur = self._pick(self.slots)
        self.cur.sem.release()
        self.main.acquire()
        for th in ts:
            th.join(30)
        return self.slots

    def _body(self, s):
        s.sem.acquire()
        if self.preempt > 0:
            sys.settrace(self._trace)
        try:
            s.result = s.fn()
        except BaseException as e:
            s.error = e
        finally:
            sys.settrace(None)
        s.done = True
        rest = [x for x in self.slots if not x.done]
        if not rest:
            self.main.release()
            return
        run = [x for x in rest if x.pred is None or x.pred()] or rest
        self.cur = self._pick(run)
        self.cur.sem.release()

    def _pick(self, cands):
        self.switches += 1
        s = cands[hint(len(cands), self.seed, "thr", self.switches)]
        self.order.append(s.i)
        return s

    def others_runnable(self):
        return any(not x.done and x is not self.cur and (x.pred is None or x.pred()) for x in self.slots)

    def others_alive(self):
        """Other threads that may still make progress (blocked ones whose wait can end)."""
        return self.others_runnable()

    def park(self, pred):
        me = self.cur
        me.pred = pred
        cands = [x for x in self.slots if not x.done and x is not me and (x.pred is None or x.pred())]
        nxt = self._pick(cands)
        self._switch(me, nxt)
        me.pred = None

    def _switch(self, me, nxt):
        if nxt is me:
            return
        self.cur = nxt
        nxt.sem.release()
        me.sem.acquire()

    def yield_point(self, what):
        self.points += 1
        if self.points > self.limit:
            return
        me = self.cur
        cands = [x for x in self.slots if not x.done and (x is me or x.pred is None or x.pred())]
        if len(cands) < 2:
            return
        if hrand(self.seed, "yield", self.points) < 0.6:
            self._switch(me, self._pick(cands))

    def _trace(self, frame, event, arg):
        fn = frame.f_code.co_filename
        if not any(x in fn for x in self.files):
            return None
        return self._line

    def _line(self, frame, event, arg):
        if event in ("line", "return") and not self.cluster.depth:
            self.points += 1
            if self.points < self.limit and hrand(self.seed, "pre", self.points) < self.preempt:
                me = self.cur
                cands = [x for x in self.slots if not x.done and x is not me and (x.pred is None or x.pred())]
                if cands:
                    self.preemptions += 1
                    self._switch(me, self._pick(cands))
        return self._line


class SimLock:
    """Lock created by package code: waiting for it is a scheduling point of the simulated threads."""

    def __init__(self, reentrant=False):
        self.reentrant = reentrant
        self.owner = None
        self.count = 0

    def _me(self):
        th = _current[0].threads if _current[0] is not None else None
        return (th, th.cur) if th is not None and th.cur is not None else (None, "main")

    def acquire(self, blocking=True, timeout=-1):
        th, me = self._me()
        if self.count and self.owner is me and self.reentrant:
            self.count += 1
            return True
        if self.count:
            if not blocking:
                return False
            if th is None:
                raise SimDeadlock("waiting for a lock nobody will release")
            while self.count:
                th.cluster.block(lambda: not self.count, "a lock")
        self.owner, self.count = me, 1
        return True

    def release(self):
        if not self.count:
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if not self.count:
            self.owner = None

    def locked(self):
        return bool(self.count)

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


def patch_locks():
    """Locks made by modules of the package become simulated ones; all others stay as they are."""
    real, rreal = threading.Lock, threading.RLock

    def inside():
        return "rxn_network" in sys._getframe(2).f_code.co_filename

    threading.Lock = lambda: SimLock() if inside() else real()
    threading.RLock = lambda: SimLock(True) if inside() else rreal()


# ------------------------------------------------------------------ current cluster
_current = [None]


def current() -> Cluster:
    if _current[0] is None:
        _current[0] = Cluster()
    return _current[0]


def use(spec) -> Cluster:
    c = Cluster(spec)
    _current[0] = c
    return c
