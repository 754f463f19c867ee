"""C09: competition scores equal their direct sequential definition."""
from __future__ import annotations

import copy
from collections import Counter

import numpy as np

from dst import base, canon, gen, hull, ops, rx

QUICK = 300
THOROUGH = 9000
RULE = ("A case is a random entry set, the reactions that one or two enumerators (basic, minimising, open, grand-canonical) find in "
        "it, as one combined or up to ten (overlapping) reaction sets, a target, an optional open element and potential, and two "
        "executions of the competition job with their own chunk size, CPUs, node memory (from far too little upwards), schedule "
        "and transparent faults. Every reaction forming the target must come back once, with the scores computed directly from "
        "all reactions whose reactants are among its precursors and the open phase. Non-trivial: some score is not that of a "
        "lone reaction.")
REAL = ["CalculateCompetitionMaker", "ReactionSet", "InterfaceReactionHull and its calculators"]
STUB = ["ray (scheduler, workers, object store): deterministic simulator; task arguments and results are pickled for real"]
ASSUME = ["where points of a hull lie on a line to within rounding, the scores are those of a hull of the package built afresh with the reactions in any order"]
TOL = 2.1e-4


def ladder(rng):
    """Two elements and many stable compounds between them: long chains of secondary reactions."""
    a, b = rng.sample(["Li", "Y", "Ca", "Mn", "Fe", "Ti", "Ba"], 2)
    n = rng.choice([5, 6, 7, 8])
    mix = rng.sample([(1, 6), (1, 4), (1, 3), (1, 2), (2, 3), (1, 1), (3, 2), (2, 1), (3, 1), (4, 1), (6, 1)], n)
    depth = rng.uniform(1.5, 6)
    ents = [{"k": "g", "c": {a: 1}, "e": 0.0, "v": 12.0, "id": "mp-1"}, {"k": "g", "c": {b: 2}, "e": 0.0, "v": 14.0, "id": "mp-2"}]
    for i, (x, y) in enumerate(mix):
        f = y / (x + y)
        e = -4 * depth * f * (1 - f) * (1 if rng.random() < 0.85 else rng.uniform(0.4, 0.9)) - rng.uniform(0, 0.02)
        ents.append({"k": "g", "c": {a: x, b: y}, "e": round(e, 5), "v": round(rng.uniform(10, 14), 3), "id": f"mp-{i + 3}"})
    for i, e in enumerate(ents):
        e["u"] = i
    return {"ents": ents, "T": rng.choice([300, 500, 900])}


def make(rng, tier):
    if rng.random() < 0.12:
        chem = ladder(rng)
        o = ops.gen_op(rng, "compete", chem)
        o["enums"] = [{"kind": "basic", "n": 2, "chunk_size": 2500}]
        o["open"] = None
        o["target"] = rng.choice(gen.comps(chem, elements=False))
    else:
        o = ops.gen_op(rng, "compete")
    if rng.random() < 0.15 and len(o["chem"]["ents"]) < 9:  # reactions of three phases: meaningful only when one of them is open
        for e in o["enums"]:
            if e["kind"] == "basic":
                e["n"] = 3
    runs = []
    for _ in range(2):
        s = gen.schedule(rng)
        s["memory"] = rng.choice([2**10, 2**13, 2**15, 2**17, 2**33, 2**33])
        runs.append({"chunk": rng.choice([1, 1, 2, 3, 5, 10, 100]), "sched": s})
    return {"o": o, "runs": runs, "parts": rng.choice([1, 1, 1, 2, 3, 5]), "faults": gen.faults(rng, gen.TRANSPARENT, (1, 3)) if rng.random() < 0.5 else []}


def formulas(entries):
    return {e.composition.reduced_formula for e in entries}


def everything(spec, sets):
    """All reactions, evaluated under the job's conditions."""
    from pymatgen.core.composition import Element
    from rxn_network.reactions.open import OpenComputedReaction

    rxns = [r for s in sets for r in s]
    if spec["open"]:
        el, mu = spec["open"]
        rxns = [OpenComputedReaction(r.entries, r.coefficients, {Element(el): mu}, data=dict(r.data or {}),
                                     lowest_num_errors=r.lowest_num_errors) for r in rxns]
    return rxns


class TooMany(Exception):
    """A competition score is defined for at most two precursors beside the open phase."""


def scores(rxn, rivals, precursors):
    """Set of admissible (primary, secondary) pairs."""
    from rxn_network.reactions.hull import InterfaceReactionHull

    e = rx.energy_of(rxn)
    e = rxn.energy_per_atom if e is None else e
    if len(precursors) == 1:
        out = []
        for same in (lambda r: r == rxn, lambda r: canon.rxn_key(r) == canon.rxn_key(rxn)):
            other = [r.energy_per_atom for r in rivals if not same(r)]
            if not any(abs(x) < 1e-8 for x in other):
                other.append(0.0)
            worse = [e - x for x in other if e - x > 0]
            out.append((e - min(other), max(worse) if worse else 0.0))
        return out
    try:
        return [hull.scores(rxn, rivals, *precursors)]
    except hull.Unclear:
        pass
    out = []
    for a, b in (precursors, precursors[::-1]):
        for rs in (rivals, rivals[::-1], sorted(rivals, key=lambda r: (r.energy_per_atom, str(r)))):
            h = InterfaceReactionHull(a, b, list(rs))
            x = h.get_coordinate(rxn)
            rest = [r.energy_per_atom for r in rs if abs(h.get_coordinate(r) - x) > 1e-10]
            rest += [0.0 for end in (0.0, 1.0) if abs(x - end) > 1e-10]
            out.append((e - min(rest), h.get_secondary_competition(rxn)))
    return out


def reference(spec, sets, target):
    """Key -> (admissible scores, multiplicity), or None when the direct computation is undefined."""
    from pymatgen.core.composition import Composition as C

    rxns = everything(spec, sets)
    t = C(target).reduced_formula
    openf = C(spec["open"][0]).reduced_formula if spec["open"] else None
    out = {}
    n = Counter()
    for r in rxns:
        prods = {e.composition.reduced_formula for e, c in zip(r.entries, r.coefficients) if c > 1e-8}
        if t not in prods:
            continue
        k = canon.rxn_key(r)
        n[k] += 1
        if k in out:
            continue
        reac = [e.composition.reduced_formula for e, c in zip(r.entries, r.coefficients) if c < -1e-8]
        allowed = set(reac) | ({openf} if openf else set())
        rivals = [x for x in rxns if formulas(x.reactant_entries) <= allowed]
        pre = sorted(set(reac), key=reac.index)
        if len(pre) >= 3:
            pre = [f for f in pre if f != openf]
        if len(pre) > 2:
            raise TooMany
        out[k] = scores(r, rivals, pre)
        if len(rivals) > 1:
            out[k].append(None)
    return {k: ([x for x in v if x is not None], n[k], None in v) for k, v in out.items()}


def run(case):
    res = base.Res()
    spec = {**case["o"], "op": "compete"}
    op = ops.Op(spec)
    if not op.ok:
        res.skipped += 1
        return res
    sets, es = op.inputs["rxn_sets"], op.inputs["entries"]
    if case.get("parts", 1) > 1:  # as if so many enumerations had been made
        from rxn_network.reactions.reaction_set import ReactionSet

        n = case["parts"]
        sets = [ReactionSet.from_rxns(x, entries=s.entries) for s in sets for rs in [list(s)] for x in (rs[k::n] for k in range(n)) if x]
    try:
        ref = reference(spec, sets, spec["target"])
    except TooMany:
        res.probe("three_precursors")
        for rn in case["runs"][:1]:
            r = base.Run(rn["sched"], lambda: ops.competition_op({**spec, "chunk": rn["chunk"]}, sets, es), res, [])
            if r.ok:
                res.bad("unsupported", f"chunk {rn['chunk']}: reactions of more than two precursors beside the open phase were scored instead of refused")
        return res
    except Exception as e:
        res.skipped += 1
        res.probe("reference_refused")
        return res
    res.probe("scored", len(ref))
    res.probe("with_rivals", sum(v[2] for v in ref.values()))
    res.nontrivial = any(v[2] for v in ref.values())
    n = None
    for i, rn in enumerate(case["runs"]):
        s = {**spec, "chunk": rn["chunk"]}
        kf = gen.resolve(case["faults"], *n) if i and n else []
        r = base.Run(rn["sched"], lambda: ops.competition_op(s, sets, es), res, kf)
        n = (len(r.cl.tasks), r.cl.n_puts)
        where = f"chunk {rn['chunk']}, {rn['sched']['cpus']} CPU, memory {rn['sched']['memory']}, {r.cl.fired}"
        if not ref:
            if r.ok and len(r.value.rxns):
                res.bad("invented", f"{where}: {len(r.value.rxns)} reactions to {spec['target']}, none is expected")
            return res
        if not r.ok:
            res.bad("hang" if r.hang else "failed", f"{where}: {r.why()}")
            return res
        if not judge(ref, list(r.value.rxns), where, res):
            return res
        res.probe("several_chunks", len(r.cl.tasks) > 1)
    return res



def judge(ref, rxns, where, res):
    seen = Counter()
    for x in rxns:
        k = canon.rxn_key(x)
        seen[k] += 1
        if k not in ref:
            res.bad("extra", f"{where}: {x} was not asked for")
            return False
        got = (x.data.get("primary_competition"), x.data.get("secondary_competition"))
        if got[0] is None or got[1] is None or any(v is None or np.isnan(float(v)) for v in got):
            res.bad("no-score", f"{where}: {x} came back with {got}")
            return False
        if not any(abs(float(got[0]) - a) < TOL and abs(float(got[1]) - b) < TOL for a, b in ref[k][0]):
            res.bad("score", f"{where}: {x} scored {tuple(map(float, got))}, directly {sorted(set((round(a, 5), round(b, 5)) for a, b in ref[k][0]))[:3]}")
            return False
    for k, (_, m, _) in ref.items():
        if not 1 <= seen[k] <= m:
            res.bad("lost" if not seen[k] else "repeated", f"{where}: {canon.k_str(k)} came back {seen[k]} times, {m} given")
            return False
    return True


def shrink(case):
    for i in range(len(case["runs"])):
        if len(case["runs"]) > 1:
            d = copy.deepcopy(case)
            del d["runs"][i]
            yield d
    for i in range(len(case["faults"])):
        d = copy.deepcopy(case)
        del d["faults"][i]
        yield d
    for o in ops.shrink(case["o"]):
        yield {**copy.deepcopy(case), "o": o}
    for i, c in enumerate(case["runs"]):
        for k, v in (("mode", "fifo"), ("think", 0.0), ("stragglers", 0.0), ("nodes", 1), ("preinit", True), ("memory", 2**36)):
            if c["sched"].get(k) != v:
                d = copy.deepcopy(case)
                d["runs"][i]["sched"][k] = v
                yield d
        if c["chunk"] != 100:
            d = copy.deepcopy(case)
            d["runs"][i]["chunk"] = 100
            yield d
