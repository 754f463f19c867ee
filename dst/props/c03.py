"""C03: duplicate filtering keeps exactly one of each class of equivalent reactions."""
from __future__ import annotations

import copy
from collections import Counter

import numpy as np

from dst import base, canon, gen, rx

QUICK = 1500
THOROUGH = 20000
RULE = ("A case is a reaction set over a random entry set: distinct reactions plus multiples, reorderings, reverses and exact "
        "repeats with their own data, reactions between the same phases that differ by as little as 0.03 %, up to 12 reactions to be kept, a cluster schedule and transparent faults placed on the "
        "filter's own tasks. Non-trivial: at least one class holds two or more reactions.")
REAL = ["ReactionSet.filter_duplicates (parallel and serial)", "rxn_network.utils.ray"]
STUB = ["ray (scheduler, workers, object store): deterministic simulator; task arguments and results are pickled for real"]
ASSUME = ["two reactions are equivalent when their coefficient vectors over the same phases differ by a positive factor (1e-6)"]


def make(rng, tier):
    chem = gen.chemistry(rng, n_elems=(2, 4), n_comp=(3, 10), polymorphs=0.4)
    b = rx.basic(rng, chem, rng.choice([0, 1, 2, 4, 8, 15]))
    n = 0 if not b else len(b) + rng.choice([0, 1, 3, 8, 20, 60])
    rs = rx.variants(rng, b, n, p_perm=rng.choice([0.0, 0.5])) if n else []
    if rs and rng.random() < 0.4:  # different reactions between the same phases, close to each other
        for _ in range(rng.choice([1, 1, 2, 4])):
            r = rng.choice(rs)
            m = rng.choice([1.0, 1.0, 2.0, 0.3])
            c = [m * x for x in r["c"]]
            j = rng.randrange(len(c))
            c[j] *= 1 + rng.choice([1, -1]) * 10 ** -rng.uniform(0.3, 4)
            rs.insert(rng.randrange(len(rs) + 1), {"e": list(r["e"]), "c": c})
    for i, r in enumerate(rs):
        r["id"] = i
    c = {"chem": chem, "ops": rs, "sched": gen.schedule(rng), "open": round(-rng.uniform(0, 2), 3) if rng.random() < 0.25 else None,
         "via": rng.choice(["direct", "direct", "from_rxns", "added"])}
    c["ensure"] = sorted(rng.sample(range(len(rs)), min(len(rs), rng.choice([0, 0, 1, 2, 5, 12])))) if c["via"] != "from_rxns" else []
    c["faults"] = gen.faults(rng, gen.TRANSPARENT, (1, 3)) if rng.random() < 0.5 else []
    return c


def exact(r):
    return (tuple(canon.entry_key(e) for e in r.entries), tuple(round(float(c), 9) for c in r.coefficients),
            canon.fp(r.data), type(r).__name__, canon.fp(getattr(r, "chempots", None)))


def run(case):
    from rxn_network.reactions.reaction_set import ReactionSet

    res = base.Res()
    ents = gen.build_entries(case["chem"])
    bu = rx.by_u(case["chem"], ents)
    oe = "O" if "O" in gen.elems(case["chem"]) else gen.elems(case["chem"])[0]
    specs = [s for s in case["ops"] if all(u in bu for u in s["e"])]
    rxns = rx.build(specs, bu, oe if case["open"] is not None else None, case["open"])
    keep_ids = set(case["ensure"])
    ens = [r for s, r in zip(specs, rxns) if s["id"] in keep_ids]
    classes = {}
    for r in rxns:
        classes.setdefault(canon.rxn_key(r), []).append(r)
    res.nontrivial = any(len(v) > 1 for v in classes.values())
    res.probe("classes", len(classes))
    res.probe("repeated", sum(len(v) - 1 for v in classes.values()))
    if case["via"] == "added" and len(rxns) > 1:
        h = len(rxns) // 2
        a = ReactionSet.from_rxns(rxns[:h], entries=ents)
        b = ReactionSet.from_rxns(rxns[h:], entries=ents)
        if case["open"] is not None:
            a, b = a.set_chempot(oe, case["open"]), b.set_chempot(oe, case["open"])
        rset = a.add_rxn_set(b)
    else:
        rset = ReactionSet.from_rxns(rxns, entries=ents)
    before = canon.fp_rset(rset)

    if case["via"] == "from_rxns":
        def op():
            return ReactionSet.from_rxns(rxns, entries=ents, filter_duplicates=True)
    else:
        def op():
            return rset.filter_duplicates(ensure_rxns=list(ens) if ens else None)

    outs = []
    r = base.Run(case["sched"], op, res)
    outs.append(("parallel", r))
    if case["faults"] and r.ok:
        kf = gen.resolve(case["faults"], len(r.cl.tasks), r.cl.n_puts)
        outs.append(("parallel with faults", base.Run(case["sched"], op, res, kf)))
    outs.append(("serial", base.Run(base.REF_SPEC, lambda: rset.filter_duplicates(ensure_rxns=list(ens) or None, parallelize=False), res)))
    first = None
    inp = Counter(exact(x) for x in rxns)
    for name, r in outs:
        if not r.ok:
            res.bad("failed", f"{name}: {r.why()}")
            return res
        got = list(r.value)
        if len(got) != len(r.value):
            res.bad("length", f"{name}: len {len(r.value)} but iterates {len(got)}")
            return res
        ex = Counter(exact(x) for x in got)
        extra = ex - inp
        if extra:
            res.bad("altered", f"{name}: a kept reaction is not one of the given ones: {next(iter(extra))}")
            return res
        cl = {}
        for x in got:
            cl.setdefault(canon.rxn_key(x), []).append(x)
        for k, v in classes.items():
            want = {exact(e)[:2] for e in ens if canon.rxn_key(e) == k}
            most = len({(exact(e)[0], tuple(map(float, e.coefficients))) for e in ens if canon.rxn_key(e) == k})  # may differ in the last digit
            have = {exact(e)[:2] for e in cl.get(k, [])}
            if want - have:
                res.bad("not-kept", f"{name}: a reaction asked to be kept is missing: {canon.k_str(k)}")
                return res
            n = len(cl.get(k, []))
            if not max(1, len(want)) <= n <= max(1, most):
                res.bad("lost" if n == 0 else "repeated", f"{name}: {n} kept of a class of {len(v)} ({len(want)} to be kept): {canon.k_str(k)}")
                return res
        if first is None:
            first = ex
        elif ex != first:
            res.bad("differs", f"{name}: keeps other members than {outs[0][0]}: {list((ex - first))[:1]} instead of {list((first - ex))[:1]}")
            return res
    again = base.Run(case["sched"], lambda: outs[0][1].value.filter_duplicates(ensure_rxns=list(ens) or None), res)
    if not again.ok:
        res.bad("failed", f"filtering again: {again.why()}")
    elif Counter(exact(x) for x in again.value) != first:
        res.bad("not-idempotent", "filtering the filtered set changes it")
    if canon.fp_rset(rset) != before:
        res.bad("input-changed", canon.first_diff(before, canon.fp_rset(rset)))
    return res


def shrink(case):
    yield from base.shrink_common(case)
    for i in range(len(case["ensure"])):
        d = copy.deepcopy(case)
        del d["ensure"][i]
        yield d
    for k, v in (("via", "direct"), ("open", None)):
        if case[k] != v:
            yield {**copy.deepcopy(case), k: v}
