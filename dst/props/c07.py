"""C07: pathfinding returns the k cheapest loopless pathways in order."""
from __future__ import annotations

import contextlib
import copy
import io
import random

from dst import base, canon, enums, gen, net

QUICK = 1600
THOROUGH = 60000
RULE = ("A case is a random reaction set (parallel reactions, reverses, polymorphs, tied costs in a third of the cases), either "
        "given in two shuffled orders or produced by an enumeration on the simulated cluster under two schedules with transparent "
        "worker faults, precursors, one or two targets and k in 1-40. The pathways found must be the k cheapest routes of the "
        "model (best-first enumeration of simple routes), feasible, loopless, distinct, correctly costed and ordered, for both "
        "orders. Non-trivial: at least two routes of two or more steps exist.")
REAL = ["ReactionNetwork, Graph, NetworkEntry, yens_ksp", "PathwaySet, ReactionSet", "cost functions", "enumerators in the cases that use them", "rustworkx"]
STUB = ["ray cluster (simulator)"]
ASSUME = ["among routes of equal total cost (1e-8) any may be listed first, and any may take the last place",
          "cases where the model needs more than 15000 expansions are not judged for optimality"]


def make(rng, tier):
    if rng.random() < 0.25:
        while True:
            chem = gen.chemistry(rng, n_elems=(2, 3), n_comp=(2, 4), polymorphs=0.1, exp=0.1, interp=0.0)
            if len(chem["ents"]) <= 8:
                break
        c = {"chem": chem, "enums": [enums.gen_enum(rng, chem, kind=rng.choice(["basic", "gibbs"]), p_novel=0.0)], "cost": {"f": "soft"},
             "scheds": [gen.schedule(rng), gen.schedule(rng)], "faults": gen.faults(rng, gen.TRANSPARENT, (0, 2))}
        for e in c["enums"]:
            if e["kind"] == "basic":
                e["n"] = 2
    else:
        c = net.gen_net(rng)
    c["pick"] = [rng.randrange(10000) / 10000 for _ in range(6)]
    c["npre"] = rng.choice([1, 2, 2, 2, 3, 4])
    c["ntar"] = rng.choice([1, 1, 1, 2])
    c["k"] = rng.choice([1, 2, 3, 5, 8, 15, 40])
    c["how"] = rng.choice(["formula", "entry"])
    c["shuffle"] = rng.randrange(10**6)
    return c


def produce(case, res):
    """The reactions in two orders."""
    if "enums" not in case:
        rxns, _ = net.reactions(case)
        other = list(rxns)
        random.Random(case["shuffle"]).shuffle(other)
        return [rxns, other]
    from rxn_network.entries.entry_set import GibbsEntrySet

    out = []
    for i, s in enumerate(case["scheds"]):
        es = GibbsEntrySet(gen.build_entries(case["chem"]))
        en = enums.make_enum(case["enums"][0])
        fl = []
        if i and case["faults"]:
            fl = gen.resolve(case["faults"], max(1, len(out[0])), 3)
        r = base.Run(s, lambda: list(en.enumerate(es)), res, fl)
        if not r.ok:
            return None
        out.append(r.value)
    a, b = canon.multiset(out[0]), canon.multiset(out[1])
    if a != b or len(out[0]) > 60:  # the business of C01 / too large to judge
        return None
    return out


def choose(case, rxns):
    """Precursors and targets present in the reactions (entry objects)."""
    by = {}
    for r in rxns:
        for e in r.entries:
            by.setdefault(canon.entry_key(e), e)
    if case["how"] == "formula":  # ground states only
        low = {}
        for e in by.values():
            f = e.composition.reduced_formula
            if f not in low or e.energy_per_atom < low[f].energy_per_atom:
                low[f] = e
        by = {canon.entry_key(e): e for e in low.values()}
    keys = sorted(by, key=repr)
    p = case["pick"]
    r = sorted(rxns, key=lambda x: repr(canon.rxn_key(x)))[int(p[0] * len(rxns))]
    pre = [canon.entry_key(e) for e in r.reactant_entries if canon.entry_key(e) in by]
    for i in range(case["npre"] - len(pre)):
        pre.append(keys[int(p[1 + i % 3] * len(keys))])
    pre = list(dict.fromkeys(pre))
    rest = [k for k in keys if k not in pre] or keys
    tar = list(dict.fromkeys(rest[int(p[4 + i] * len(rest))] for i in range(case["ntar"])))
    return [by[k] for k in pre], [by[k] for k in tar]


def run(case):
    with contextlib.redirect_stdout(io.StringIO()):
        return _run(case)


def _run(case):
    res = base.Res()
    orders = produce(case, res)
    if orders is None or len(orders[0]) < 1:
        res.skipped += 1
        return res
    pre, tar = choose(case, orders[0])
    if not pre or not tar:
        res.skipped += 1
        return res
    model = net.Model(case, orders[0])
    pk, tk = [canon.entry_key(e) for e in pre], [canon.entry_key(e) for e in tar]
    name = (lambda e: e) if case["how"] == "entry" else (lambda e: e.composition.reduced_formula)
    for n, rxns in enumerate(orders):
        nw = net.network(case, rxns)
        nw.build()
        nw.set_precursors([name(e) for e in pre])
        try:
            ps = nw.find_pathways([name(e) for e in tar], k=case["k"])
        except Exception as e:
            res.bad("failed", f"order {n}: finding {case['k']} pathways raised {type(e).__name__}: {str(e)[:300]} @ {base.where(e)}")
            return res
        paths = ps.paths
        msg = net.check_call(case, model, paths, pk, tk, case["k"])
        if msg is None:
            res.probe("undecided")
            res.skipped += n == 0
        elif msg:
            res.bad("paths", f"order {n}: {msg}")
            return res
        if sum(len(p.reactions) > 1 for p in paths) >= 2:
            res.nontrivial = True
        if n == 0:
            res.probe("paths", len(paths))
        res.steps += len(paths)
    if "enums" not in case:
        res.execs += 2
        res.sigs.append(repr((case["shuffle"], len(orders[0]))))
    return res


def shrink(case):
    yield from base.shrink_common(case)
    if "rxns" in case:
        n = len(case["rxns"])
        step = max(1, n // 2)
        while n > 1:
            for i in range(0, n, step):
                d = copy.deepcopy(case)
                del d["rxns"][i:i + step]
                if d["rxns"]:
                    yield d
            if step == 1:
                break
            step //= 2
    for k, vs in (("k", [1, 2, 3, 5, 8]), ("ntar", [1]), ("npre", [1, 2])):
        for v in vs:
            if case[k] > v:
                yield {**copy.deepcopy(case), k: v}
