"""C10: chemical-potential distances do not depend on how the work was scheduled."""
from __future__ import annotations

import copy
import warnings
from collections import Counter

import numpy as np

from dst import base, canon, gen, ops
from dst.props import c18

QUICK = 200
THOROUGH = 6000
RULE = ("A case is a random entry set, the reactions enumerated in it (their chemical systems differ in size and overlap), a target, "
        "optional open element and potential, calculator options, and two executions of the competition job (distances only, or "
        "after competition scoring, whose chunks come back in completion order) with their own chunk size, CPUs, schedule and "
        "transparent faults. Each distance must equal the one computed for that reaction alone, in a new diagram of the entries "
        "of its own chemical system. Non-trivial: reactions of at least two chemical systems were scored.")
REAL = ["CalculateCompetitionMaker", "ChempotDistanceCalculator", "ChemicalPotentialDiagram", "GibbsEntrySet"]
STUB = ["ray (scheduler, workers, object store): deterministic simulator; task arguments and results are pickled for real"]
ASSUME = ["in systems of more than three elements besides the open one the distance within one fresh diagram is taken from ChempotDistanceCalculator"]


def make(rng, tier):
    k = rng.choice(["chempot", "chempot", "both"])
    while True:  # targets with few elements are formed in chemical systems of different size
        chem = gen.chemistry(rng, n_elems=(3, 3) if rng.random() < 0.75 else (4, 4), n_comp=(3, 5), exp=0.1, interp=0.0, polymorphs=0.15)
        o = ops.gen_op(rng, k, chem)
        fs = sorted(gen.comps(chem, elements=False), key=lambda f: len(set(gen.parse(f))))
        if o["open"]:  # a diagram needs two elements besides the open one
            fs = [f for f in fs if len(set(gen.parse(f)) - {o["open"][0]}) > 1]
        if not fs:
            continue
        o["target"] = rng.choice(fs)
        if rng.random() < 0.8:
            t = rng.choice([f for f in fs if len(gen.parse(f)) == len(gen.parse(fs[0]))])
            o["target"] = t
        for e in o["enums"]:
            if "targets" in e:
                e["targets"] = [o["target"]]
        break
    runs = []
    for _ in range(2):
        runs.append({"chunk": rng.choice([1, 2, 3, 5, 10, 100]), "sched": gen.schedule(rng)})
    return {"o": o, "runs": runs, "faults": gen.faults(rng, gen.TRANSPARENT, (1, 3)) if rng.random() < 0.4 else []}


def distance(spec, rxn, es, made):
    """The distance of one reaction, evaluated by itself."""
    from pymatgen.core.composition import Element
    from rxn_network.costs.calculators import ChempotDistanceCalculator
    from rxn_network.entries.entry_set import GibbsEntrySet
    from rxn_network.reactions.open import OpenComputedReaction

    els = {str(x) for e in rxn.entries for x in e.composition.elements}
    kw = dict(spec["cpd"])
    kw.pop("name", None)
    if spec["open"]:
        oe, mu = spec["open"]
        els.add(oe)
        ents = [e.to_grand_entry({Element(oe): mu}) for e in es if {str(x) for x in e.composition.elements} <= els
                and {str(x) for x in e.composition.elements} != {oe}]
        rxn = OpenComputedReaction(rxn.entries, rxn.coefficients, {Element(oe): mu})
    else:
        ents = GibbsEntrySet([e for e in es if {str(x) for x in e.composition.elements} <= els])
    calc = ChempotDistanceCalculator.from_entries(ents, **kw)
    d = calc.calculate(rxn)
    sides = rxn.reactant_entries, rxn.product_entries
    if spec["open"]:  # the open phase is not part of the diagram
        sides = [[e.to_grand_entry({Element(oe): mu}) for e in side if {str(x) for x in e.composition.elements} != {oe}] for side in sides]
    k = frozenset(els)
    own = None
    if len(calc.cpd.elements) <= 3 and (k in made or len(made) < 3):  # one diagram per system does for the definition
        own = c18.reaction_distance(made.setdefault(k, calc).cpd, list(ents), *sides, kw.get("mu_func", "sum"))
    if own is not None and abs(own - d) > 3e-5:
        raise Wrong(f"{rxn}: evaluated alone {d}, from domains and energies {own}")
    return d, k


class Wrong(Exception):
    """Not the value the definition gives."""


def reference(spec, sets, es):
    from pymatgen.core.composition import Composition as C
    from dst.props.c09 import everything

    t = C(spec["target"]).reduced_formula
    out, n, systems, made = {}, Counter(), set(), {}
    for r in everything(spec, sets):
        if t not in {e.composition.reduced_formula for e, c in zip(r.entries, r.coefficients) if c > 1e-8}:
            continue
        k = canon.rxn_key(r)
        n[k] += 1
        if k not in out:
            try:
                out[k], s = distance(spec, r, es, made)
                systems.add(s)
            except (Wrong, TypeError, AttributeError) as e:
                return e, systems
            except Exception:
                return None, systems
    return {k: (v, n[k]) for k, v in out.items()}, systems


def run(case):
    res = base.Res()
    spec = case["o"]
    op = ops.Op(spec)
    if not op.ok:
        res.skipped += 1
        return res
    sets, es = op.inputs["rxn_sets"], op.inputs["entries"]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ref, systems = reference(spec, sets, es)
    if ref is None:
        res.skipped += 1
        res.probe("reference_refused")
        return res
    if isinstance(ref, Exception):
        res.bad("wrong" if isinstance(ref, Wrong) else "refused", str(ref) if isinstance(ref, Wrong) else base.describe(ref))
        return res
    res.probe("scored", len(ref))
    res.probe("systems", len(systems))
    res.nontrivial = len(systems) > 1
    name = spec["cpd"].get("name", "chempot_distance")
    n = None
    for i, rn in enumerate(case["runs"]):
        s = {**spec, "chunk": rn["chunk"]}
        kf = gen.resolve(case["faults"], *n) if i and n else []
        r = base.Run(rn["sched"], lambda: ops.competition_op(s, sets, es), res, kf)
        n = (len(r.cl.tasks), r.cl.n_puts)
        where = f"{spec['op']}, chunk {rn['chunk']}, {rn['sched']['cpus']} CPU, {r.cl.fired}"
        if r.hang:
            res.bad("hang", f"{where}: {r.why()}")
            return res
        if not ref:
            if r.ok and len(r.value.rxns):
                res.bad("invented", f"{where}: {len(r.value.rxns)} reactions")
            return res
        if not r.ok:
            if spec["op"] == "both" and i == 0:
                res.skipped += 1  # competition scoring may refuse these reactions: C09's business
                return res
            res.bad("failed", f"{where}: {r.why()}")
            return res
        if not judge(ref, list(r.value.rxns), name, where, res):
            return res
        res.probe("several_chunks", len(r.cl.tasks) > (2 if spec["op"] == "both" else 1))
    return res


def judge(ref, rxns, name, where, res):
    seen = Counter()
    for x in rxns:
        k = canon.rxn_key(x)
        seen[k] += 1
        if k not in ref:
            res.bad("extra", f"{where}: {x} was not asked for")
            return False
        got = x.data.get(name)
        if got is None or not np.isfinite(float(got)):
            res.bad("no-distance", f"{where}: {x} came back with {got}")
            return False
        if abs(float(got) - ref[k][0]) > 3e-5:
            res.bad("distance", f"{where}: {x} at {float(got)}, alone {ref[k][0]}")
            return False
    for k, (_, m) in ref.items():
        if not 1 <= seen[k] <= m:
            res.bad("lost" if not seen[k] else "repeated", f"{where}: {canon.k_str(k)} came back {seen[k]} times, {m} given")
            return False
    return True


def shrink(case):
    from dst.props import c09

    yield from c09.shrink(case)
