"""C02: a parallel operation returns its full result or an error, never part of it."""
from __future__ import annotations

import copy

from dst import base, gen, ops

QUICK = 200
THOROUGH = 12000
RULE = ("A case is one parallel operation (each enumerator, several enumerators together, duplicate filter, competition scoring, "
        "chemical-potential-distance scoring, network job, pathway solving) on random inputs, a cluster schedule, and up to four "
        "separate fault plans of one or two faults each (permanent worker crash, permanent memory kill, application exception of "
        "ten kinds, exception of six kinds at any call made within a task, lost or refused stored object, plus transient faults), placed on the tasks and stored objects of that very "
        "run, each followed by the same call on the same inputs with healthy workers. Non-trivial: a fatal fault fired.")
REAL = ["enumerators, duplicate filter, PathwaySolver, CalculateCompetitionMaker, NetworkMaker", "pickling of task arguments/results"]
STUB = ["ray (scheduler, workers, object store): deterministic simulator"]
ASSUME = ["results are compared as multisets of reactions (with their scores), pathways or paths; the fault-free result is C01/C03/C08/C09/C10's business"]


def make(rng, tier):
    c = {"o": ops.gen_op(rng), "sched": gen.schedule(rng), "plans": []}
    for _ in range(rng.choice([2, 3, 4])):
        p = gen.faults(rng, gen.FATAL, (1, 1))
        if rng.random() < 0.3:
            p += gen.faults(rng, gen.TRANSPARENT + gen.FATAL, (1, 1))
        c["plans"].append(p)
    return c


def run(case):
    res = base.Res()
    op = ops.Op(case["o"])
    if not op.ok:
        res.skipped += 1
        return res
    r0 = base.Run(case["sched"], op.call, res)
    if r0.hang:
        res.bad("hang", f"fault-free: {r0.why()}")
        return res
    want = None
    if r0.ok:
        want = op.key(r0.value)
    else:
        res.probe("refused")
    res.probe("op_" + op.kind)
    for i, plan in enumerate(case["plans"]):
        kf = gen.resolve(plan, len(r0.cl.tasks), r0.cl.n_puts)
        r = base.Run(case["sched"], op.call, res, kf)
        fired = [k for k in r.cl.fired if k not in ("straggler", "slow")]
        if fired and not r.ok:
            res.nontrivial = True
        if r.hang:
            res.bad("hang", f"{op.kind} with {plan}: {r.why()}")
            return res
        if r.ok:
            if want is None:
                res.bad("error-lost", f"{op.kind} with {plan}: returned, although the fault-free call raises {r0.why()}")
                return res
            try:
                k = op.key(r.value)
            except Exception as e:
                res.bad("unreadable", f"{op.kind} with {plan}: {type(e).__name__}: {e}")
                return res
            if k != want:
                res.bad("partial", f"{op.kind} with {plan} ({r.cl.fired}): returned {size(k)} instead of {size(want)}: {delta(k, want)}")
                return res
            res.probe("full_result")
        else:
            res.probe("error_raised")
    # the same call on the same inputs once the workers are healthy
    s2 = {**case["sched"], "seed": case["sched"]["seed"] + 17}
    r2 = base.Run(s2, op.call, res)
    if r0.ok and not r2.ok:
        res.bad("retry-failed", f"{op.kind} after faults {case['plans']}: {r2.why()}")
    elif r0.ok and op.key(r2.value) != want:
        res.bad("retry-differs", f"{op.kind} after faults {case['plans']}: {delta(op.key(r2.value), want)}")
    elif r2.hang:
        res.bad("hang", f"{op.kind} retried: {r2.why()}")
    return res


def size(k):
    try:
        return len(k)
    except TypeError:
        return "?"


def delta(a, b):
    if isinstance(a, frozenset):
        return f"extra {sorted(map(str, a - b))[:2]}, missing {sorted(map(str, b - a))[:2]}"
    return f"{str(a)[:300]} instead of {str(b)[:300]}"


def shrink(case):
    for i in range(len(case["plans"])):
        d = copy.deepcopy(case)
        del d["plans"][i]
        yield d
    for i, p in enumerate(case["plans"]):
        for j in range(len(p)):
            if len(p) > 1:
                d = copy.deepcopy(case)
                del d["plans"][i][j]
                yield d
    for o in ops.shrink(case["o"]):
        yield {**copy.deepcopy(case), "o": o}
    yield from base.shrink_common({k: v for k, v in case.items()})
