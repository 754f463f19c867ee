"""C11: parallel operations leave the caller's objects unchanged, even on failure."""
from __future__ import annotations

import copy

from dst import base, canon, gen, ops

QUICK = 300
THOROUGH = 9000
RULE = ("A case is one parallel operation on random inputs whose entries carry nested data, parameters and oxidation states; deep "
        "fingerprints of everything the caller passed (entry sets with entries and data, reaction sets with arrays and data, "
        "reactions, pathway sets, enumerators, solvers, makers, lists) are compared before and after a fault-free run, and after two runs with "
        "faults that retry or fail the operation at a random task or stored object. Non-trivial: at least one run failed.")
REAL = ["enumerators, duplicate filter, PathwaySolver, CalculateCompetitionMaker, NetworkMaker"]
STUB = ["ray (scheduler, workers, object store): deterministic simulator; task arguments and results are pickled for real"]
ASSUME = ["building a network assigns the documented index to the entries it is given (data['idx']): left out for that operation"]


def make(rng, tier):
    c = {"o": ops.gen_op(rng), "sched": gen.schedule(rng), "plans": []}
    c["o"]["own"] = rng.random() < 0.7
    for _ in range(2):
        c["plans"].append(gen.faults(rng, gen.FATAL + gen.FATAL + gen.TRANSPARENT, (1, 2)))
    return c


def strip_idx(f):
    """Fingerprint without the entry index."""
    if isinstance(f, tuple):
        if len(f) == 2 and f[0] == "d" and isinstance(f[1], tuple):
            return ("d", tuple((k, strip_idx(v)) for k, v in f[1] if k != "'idx'"))
        return tuple(strip_idx(x) for x in f)
    return f


def run(case):
    res = base.Res()
    op = ops.Op(case["o"])
    if not op.ok:
        res.skipped += 1
        return res
    res.probe("op_" + op.kind)

    def fingerprint():
        f = op.fingerprint()
        return {k: strip_idx(v) for k, v in f.items()} if op.kind == "net" else f

    before = fingerprint()
    r0 = base.Run(case["sched"], op.call, res)
    runs = [("fault-free", r0)]
    if not same(before, fingerprint(), res, op, "a fault-free run"):
        return res
    for plan in case["plans"]:
        kf = gen.resolve(plan, len(r0.cl.tasks), r0.cl.n_puts)
        r = base.Run({**case["sched"], "seed": case["sched"]["seed"] + 3}, op.call, res, kf)
        runs.append((plan, r))
        res.nontrivial |= not r.ok
        res.probe("failed", not r.ok)
        if not same(before, fingerprint(), res, op, f"a run with {plan} ({r.why()})"):
            return res
    return res


def same(before, after, res, op, what):
    for k in before:
        if before[k] != after[k]:
            res.bad("input-changed", f"{op.kind}: {k} changed by {what}: {canon.first_diff(before[k], after[k])}")
            return False
    return True


def shrink(case):
    for i in range(len(case["plans"])):
        d = copy.deepcopy(case)
        del d["plans"][i]
        yield d
    for o in ops.shrink(case["o"]):
        yield {**copy.deepcopy(case), "o": o}
    yield from base.shrink_common(case)
