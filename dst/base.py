"""What property modules share: running an operation in the simulator, and results."""
from __future__ import annotations

import copy
import random
import traceback
import warnings

import numpy as np

from dst import gen, kernel


class Res:
    """Outcome of one case."""

    def __init__(self):
        self.violations = []
        self.fired = {}
        self.sigs = []
        self.sim_time = 0.0
        self.steps = 0
        self.execs = 0
        self.tasks = 0
        self.probes = {}
        self.nontrivial = False
        self.skipped = 0

    def bad(self, cls, msg, known=None):
        self.violations.append({"cls": cls, "msg": str(msg)[:1500], "known": known})

    def probe(self, name, n=1):
        if n:
            self.probes[name] = self.probes.get(name, 0) + int(n)

    def take(self, cl):
        """Account for one simulated execution."""
        for k, v in cl.fired.items():
            self.fired[k] = self.fired.get(k, 0) + v
        self.sigs.append(cl.signature())
        self.sim_time += cl.now
        self.steps += cl.steps
        self.execs += 1
        self.tasks += len(cl.tasks)

    def fire(self, kind, n=1):
        self.fired[kind] = self.fired.get(kind, 0) + n

    def out(self):
        return {"violations": self.violations, "fired": self.fired, "sigs": self.sigs, "sim_time": self.sim_time,
                "steps": self.steps, "execs": self.execs, "tasks": self.tasks, "probes": self.probes,
                "nontrivial": self.nontrivial, "skipped": self.skipped}


class Run:
    """One operation under one simulated cluster."""

    def __init__(self, spec, fn, res=None, faults=()):
        spec = dict(spec)
        if faults:
            spec["faults"] = copy.deepcopy(list(faults))
        self.cl = kernel.use(spec)
        self.value = None
        self.err = None
        self.hang = None
        random.seed(12345)
        np.random.seed(12345)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                self.value = fn()
        except kernel.SimDeadlock as e:
            self.hang = f"deadlock: {e}"
        except kernel.SimStepLimit as e:
            self.hang = f"no progress: {e}"
        except Exception as e:
            self.err = e
            self.tb = "".join(traceback.format_exception(e))[-1800:]
        if res is not None:
            res.take(self.cl)

    @property
    def ok(self):
        return self.err is None and self.hang is None

    def why(self):
        if self.hang:
            return self.hang
        if self.err is not None:
            return f"{type(self.err).__name__}: {str(self.err)[:300]} @ {where(self.err)}"
        return "ok"


def where(e):
    """Innermost frame in the code under test."""
    tb = e.__traceback__
    last = ""
    while tb is not None:
        f = tb.tb_frame.f_code
        if "rxn_network" in f.co_filename:
            last = f"{f.co_filename.split('rxn_network/')[-1]}:{f.co_name}"
        tb = tb.tb_next
    return last


def describe(e):
    return f"{type(e).__name__}: {str(e)[:300]} @ {where(e)}"


REF_SPEC = {"seed": 0, "mode": "fifo", "cpus": 4, "think": 0.0, "stragglers": 0.0, "nodes": 1, "preinit": True,
            "memory": 2**36}


def shrink_common(case):
    """Generic smaller variants of a case: fewer faults, fewer entries, fewer operations, simpler schedule."""
    c = case
    fl = c.get("faults") or []
    for i in range(len(fl)):
        d = copy.deepcopy(c)
        del d["faults"][i]
        yield d
    ops = c.get("ops") or []
    n = len(ops)
    step = max(1, n // 2)
    while step >= 1 and n:
        for i in range(0, n, step):
            d = copy.deepcopy(c)
            del d["ops"][i:i + step]
            if len(d["ops"]) < n:
                yield d
        if step == 1:
            break
        step //= 2
    if "chem" in c:
        m = len(c["chem"]["ents"])
        step = max(1, m // 2)
        while m > 1:
            for i in range(0, m, step):
                d = copy.deepcopy(c)
                del d["chem"]["ents"][i:i + step]
                if d["chem"]["ents"]:
                    yield d
            if step == 1:
                break
            step //= 2
        for i, e in enumerate(c["chem"]["ents"]):
            if "data" in e or "params" in e:
                d = copy.deepcopy(c)
                d["chem"]["ents"][i].pop("data", None)
                d["chem"]["ents"][i].pop("params", None)
                yield d
    if "sched" in c:
        for k, v in (("mode", "fifo"), ("think", 0.0), ("stragglers", 0.0), ("nodes", 1), ("preinit", True), ("cpus", 2), ("cpus", 4)):
            if c["sched"].get(k) != v and not (k == "cpus" and c["sched"][k] < v):
                d = copy.deepcopy(c)
                d["sched"][k] = v
                yield d


def full_schedule(rng):
    return gen.schedule(rng)
