"""C20: operations issued concurrently by several callers do not affect one another."""
from __future__ import annotations

import contextlib
import copy

from dst import base, canon, gen, kernel, ops
from dst.props.c02 import delta

QUICK = 220
THOROUGH = 6000
RULE = ("A case is two to four caller threads, each issuing one or two parallel operations (enumeration, union, duplicate filter, "
        "competition, chemical-potential distance, network job, pathway solving) on one cluster; callers share the entry objects "
        "of one chemical system, and often the very input sets and enumerators. Exactly one thread runs at a time: who, is "
        "decided by the seed at every cluster call and, in half of the cases, at statement boundaries of the package as well. "
        "Faults are placed on the tasks of one caller. Each caller must get the result it gets alone; a failure may only reach "
        "the caller whose task it hit. Non-trivial: at least two callers overlapped (a switch happened while both were active).")
REAL = ["enumerators, duplicate filter, PathwaySolver, CalculateCompetitionMaker, NetworkMaker, module- and class-level state"]
STUB = ["ray (scheduler, workers, object store): deterministic simulator", "thread scheduler: seeded, one thread at a time"]
ASSUME = ["preemption happens at Python statement boundaries of package code and at cluster calls, not inside pymatgen or numpy"]

FILES = ("rxn_network/",)


def make(rng, tier):
    n = rng.choice([2, 2, 2, 3, 4])
    chem = gen.chemistry(rng, n_elems=(2, 3), n_comp=(2, 4), interp=0.0, polymorphs=0.2)
    o = []
    kinds = ["enum", "enum", "enum", "union", "filter", "compete", "compete", "chempot", "net"]
    for _ in range(n):
        k = rng.choice(kinds) if rng.random() < 0.93 else "solve"
        if o and rng.random() < 0.3 and o[-1]["op"] != "solve":
            x = copy.deepcopy(o[-1])
        else:
            x = ops.gen_op(rng, k, None if k == "solve" else chem)
        o.append(x)
    for x in o:
        if x["op"] != "solve":
            x.pop("chem", None)
    c = {"chem": chem, "o": o, "sched": gen.schedule(rng), "tseed": rng.randrange(10**6),
         "preempt": rng.choice([0.0, 0.0, 0.01, 0.05, 0.2]), "share": rng.random() < 0.5,
         "victim": rng.randrange(n) if rng.random() < 0.4 else None, "faults": gen.faults(rng, gen.FATAL + gen.TRANSPARENT, (1, 2))}
    c["sched"]["stragglers"] = 0.05
    return c


def build(case, specs, ents):
    out = []
    for s in specs:
        out.append(ops.Op(s, ents if s["op"] != "solve" else None))
    if case["share"]:  # the very same input objects for equal operations, the same entry set for all
        first = {}
        for a in out:
            if a.ok and "entries" in a.inputs and a.kind != "solve":
                a.inputs["entries"] = first.setdefault("entries", a.inputs["entries"])
        for i, a in enumerate(out):
            for b in out[:i]:
                if a.spec == b.spec and a.ok and b.ok:
                    a.inputs = b.inputs
    return out


def run(case):
    res = base.Res()
    specs = [s if s["op"] == "solve" else {**s, "chem": case["chem"]} for s in case["o"]]
    ents = gen.build_entries(case["chem"])
    alone = []
    cl_tasks = []
    ref_ops = build(case, specs, ents)
    keep = [i for i, a in enumerate(ref_ops) if a.ok]
    for i in keep:
        r = base.Run(case["sched"], ref_ops[i].call, res)
        if r.hang:
            res.bad("hang", f"{ref_ops[i].kind} alone: {r.why()}")
            return res
        alone.append((ref_ops[i].key(r.value) if r.ok else None, r))
        cl_tasks.append((len(r.cl.tasks), r.cl.n_puts))
    specs = [specs[i] for i in keep]
    if len(specs) < 2:
        res.skipped += 1
        return res
    # fresh objects: what was computed alone must not be warm in some cache
    co = build(case, specs, gen.build_entries(case["chem"]))
    victim = case["victim"] if case["victim"] is not None and case["victim"] < len(specs) else None
    spec = dict(case["sched"])
    cl = kernel.use(spec)
    if victim is not None:
        cl.victim_faults = gen.resolve(case["faults"], *cl_tasks[victim])
    import random
    import sys
    import warnings

    import numpy as np

    random.seed(1)
    np.random.seed(1)
    th = kernel.Threads(cl, case["tseed"], case["preempt"], FILES)
    cl.threads = th
    cl.victim = victim

    def body(i):
        def f():
            return co[i].call()
        return f

    with warnings.catch_warnings(), contextlib.redirect_stdout(sys.stderr):
        warnings.simplefilter("ignore")
        slots = th.run([body(i) for i in range(len(specs))])
    cl.threads = None
    res.take(cl)
    res.fire("thread_switch", th.switches)
    res.fire("preemption", th.preemptions)
    res.sigs.append("t" + cl.signature() + str(hash(tuple(th.order))))
    res.nontrivial = th.switches > len(specs)
    for i, s in enumerate(slots):
        want, r = alone[i]
        name = f"caller {i} ({co[i].kind}) of {[x.kind for x in co]}"
        if isinstance(s.error, kernel.HarnessError) or isinstance(s.error, kernel.SimUnsupported):
            raise s.error
        if isinstance(s.error, (kernel.SimDeadlock, kernel.SimStepLimit)):
            res.bad("hang", f"{name}: {s.error}")
            return res
        if s.error is not None:
            if want is None:
                continue
            if i == victim and any(k not in ("straggler", "slow", "thread_switch") for k in cl.fired):
                res.probe("victim_failed")
                continue
            res.bad("failed", f"{name}: {type(s.error).__name__}: {str(s.error)[:300]} @ {base.where(s.error)}")
            return res
        if want is None:
            res.bad("error-lost", f"{name}: returned, alone it raises {r.why()}")
            return res
        k = co[i].key(s.result)
        if k != want:
            res.bad("differs", f"{name}: {delta(k, want)}")
            return res
    return res


def shrink(case):
    for i in range(len(case["o"])):
        if len(case["o"]) > 2:
            d = copy.deepcopy(case)
            del d["o"][i]
            d["victim"] = None
            yield d
    if case["victim"] is not None:
        yield {**copy.deepcopy(case), "victim": None}
    if case["preempt"]:
        yield {**copy.deepcopy(case), "preempt": 0.0}
    m = len(case["chem"]["ents"])
    for i in range(m):
        if m > 2:
            d = copy.deepcopy(case)
            del d["chem"]["ents"][i]
            yield d
    for k, v in (("mode", "fifo"), ("think", 0.0), ("stragglers", 0.0), ("nodes", 1), ("preinit", True)):
        if case["sched"].get(k) != v:
            d = copy.deepcopy(case)
            d["sched"][k] = v
            yield d
