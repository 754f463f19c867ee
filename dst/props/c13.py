"""C13: every parallel operation finishes on any feasible cluster."""
from __future__ import annotations

import copy

from dst import base, gen, ops
from dst.props.c02 import delta

QUICK = 420
THOROUGH = 12000
WORK = ["full"] * 3 + ["none"]
RULE = ("A case is one parallel operation on random inputs (a quarter of them with no work at all: one phase, no reactions, no "
        "solvable combination) on two random small clusters: 1-16 CPUs over 1-4 nodes, equal or uneven node memory from 1 kB to "
        "16 GB, started by the caller or not, with a finite number of worker failures on the second. The operation must return "
        "the result it returns on a comfortable cluster, within a bounded number of scheduling steps, without a resource request "
        "no node can meet. Non-trivial: a cluster of one CPU, or with less memory than the work asks for, or no work.")
REAL = ["enumerators, duplicate filter, PathwaySolver, CalculateCompetitionMaker, NetworkMaker, initialize_ray"]
STUB = ["ray (scheduler, workers, object store, resource accounting): deterministic simulator"]
ASSUME = ["a request for more of a resource than any living node has is never scheduled, as on a real cluster without autoscaling"]


def cluster(rng):
    cpus = rng.choice([1, 1, 1, 1, 2, 2, 3, 4, 8, 16])
    s = gen.schedule(rng)
    s["cpus"] = cpus
    s["nodes"] = rng.choice([1, 1, 2, 3, 4])
    s["memory"] = rng.choice([2**10, 2**12, 2**14, 2**16, 2**20, 2**30, 2**34])
    if s["nodes"] > 1 and rng.random() < 0.5:
        s["node_memory"] = [rng.choice([2**9, 2**11, 2**13, 2**15, 2**20, 2**33]) for _ in range(4)]
    s["preinit"] = rng.random() < 0.6
    return s


def make(rng, tier):
    w = rng.choice(WORK)
    if w == "full":
        o = ops.gen_op(rng)
    else:
        o = nothing(rng)
    return {"o": o, "work": w, "clusters": [cluster(rng), cluster(rng)], "faults": gen.faults(rng, gen.TRANSPARENT, (1, 4))}


def nothing(rng):
    k = rng.choice(["enum", "enum", "union", "filter", "solve"])
    if k in ("enum", "union"):
        chem = gen.chemistry(rng, n_elems=(2, 2), n_comp=(1, 2), polymorphs=0.0, exp=0.0, interp=0.0)
        how = rng.choice(["elements", "one", "unreachable"])
        if how == "elements":
            chem["ents"] = [e for e in chem["ents"] if len(gen.parse(e["c"])) == 1]
        elif how == "one":
            chem["ents"] = chem["ents"][:1]
        o = ops.gen_op(rng, k, chem)
        for e in o["enums"]:
            for x in ("precursors", "targets", "filter_by_chemsys"):
                e.pop(x, None)
            if e["kind"] == "open":
                e["open_phases"] = e["open_phases"][:1]
            if how == "elements":
                e["kind"] = "basic" if e["kind"] in ("gibbs", "grand") else e["kind"]
                e.pop("open_elem", None), e.pop("mu", None)
            if how == "one":
                e["kind"] = "basic"
                for x in ("open_elem", "mu", "open_phases"):
                    e.pop(x, None)
        return {**o, "how": how}
    if k == "filter":
        chem = gen.chemistry(rng, n_elems=(2, 3), n_comp=(2, 4))
        return {"op": "nofilter", "chem": chem, "how": rng.choice(["from_rxns", "bare", "groups", "build"])}
    c = ops.gen_op(rng, "solve")
    c["n"] = rng.choice([1, 2, 3])
    c["find"] = False
    c["paths"] = [[rng.choice([-1, 0])]]
    return c


class Nothing:
    """Operations on no reactions at all."""

    ok = True
    kind = "nofilter"

    def __init__(self, spec):
        self.spec = spec

    def call(self):
        import numpy as np
        from rxn_network.reactions.reaction_set import ReactionSet

        ents = gen.build_entries(self.spec["chem"])
        h = self.spec["how"]
        if h == "build":
            return ReactionSet.from_rxns([], entries=ents, filter_duplicates=True)
        if h == "bare":
            return ReactionSet(ents, {}, {}, all_data={}).filter_duplicates()
        if h == "groups":
            return ReactionSet(ents, {2: np.zeros((0, 2), int)}, {2: np.zeros((0, 2))}, all_data={2: np.array([])}).filter_duplicates()
        return ReactionSet.from_rxns([], entries=ents).filter_duplicates()

    def key(self, v):
        return frozenset(map(str, v))


def run(case):
    res = base.Res()
    op = Nothing(case["o"]) if case["o"]["op"] == "nofilter" else ops.Op(case["o"])
    if not op.ok:
        res.skipped += 1
        return res
    ref = base.Run(base.REF_SPEC, op.call, res)
    if ref.hang:
        res.bad("hang", f"comfortable cluster: {ref.why()}")
        return res
    must = case["work"] == "none"
    if must and not ref.ok:
        res.bad("no-work", f"{op.kind} with nothing to do: {ref.why()}")
        return res
    want = op.key(ref.value) if ref.ok else None
    res.probe("op_" + op.kind)
    res.probe("no_work", must)
    for i, cl in enumerate(case["clusters"]):
        kf = gen.resolve(case["faults"], len(ref.cl.tasks), ref.cl.n_puts) if i else []
        spec = {**cl, "max_steps": 2000 + 60 * (len(ref.cl.tasks) + 1) * max(1, len(kf) + 1)}
        r = base.Run(spec, op.call, res, kf)
        if cl["cpus"] == 1 or cl["memory"] < 2**20 or must:
            res.nontrivial = True
        where = f"{op.kind} on {cl['cpus']} CPU, {[n.memory for n in r.cl.nodes]} B memory{', worker failures' if kf else ''}"
        if r.hang:
            res.bad("hang", f"{where}: {r.why()}")
            return res
        if r.cl.infeasible and not r.cl.fired.get("node_down"):
            res.bad("infeasible", f"{where}: asked for resources no node has")
            return res
        if ref.ok and not r.ok:
            res.bad("failed", f"{where}: {r.why()}")
            return res
        if ref.ok and op.key(r.value) != want:
            res.bad("differs", f"{where}: {delta(op.key(r.value), want)}")
            return res
    return res


def shrink(case):
    for i in range(len(case["clusters"])):
        if len(case["clusters"]) > 1:
            d = copy.deepcopy(case)
            del d["clusters"][i]
            yield d
    for i in range(len(case["faults"])):
        d = copy.deepcopy(case)
        del d["faults"][i]
        yield d
    if case["o"]["op"] != "nofilter":
        for o in ops.shrink(case["o"]):
            yield {**copy.deepcopy(case), "o": o}
    for i, c in enumerate(case["clusters"]):
        for k, v in (("mode", "fifo"), ("think", 0.0), ("stragglers", 0.0), ("nodes", 1), ("preinit", True), ("node_memory", None),
                     ("memory", 2**36)):
            if c.get(k) != v:
                d = copy.deepcopy(case)
                d["clusters"][i][k] = v
                yield d
