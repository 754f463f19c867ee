"""C01: parallel enumeration yields exactly the sequential set of reactions."""
from __future__ import annotations

from collections import Counter

from dst import base, canon, enums, gen

QUICK = 240
THOROUGH = 6000
RULE = ("A case is a random entry set (2-6 elements, polymorphs, multiples of formula units, experimental and interpolated "
        "entries), one to three enumerators with random settings, a random cluster schedule (CPUs, completion order, stragglers, "
        "nodes, client think time) and up to three transparent faults (worker crash before or after the work, lost return value, "
        "memory kill with retry, node loss) placed on the tasks of that very run. Non-trivial: the reference has at least one "
        "reaction and at least two remote tasks ran.")
REAL = ["rxn_network enumerators, entry sets, reactions, reaction sets", "pymatgen phase diagrams and interface reactivity"]
STUB = ["ray (scheduler, workers, object store): deterministic simulator; task arguments and results are pickled for real"]
ASSUME = ["the balancing of a single reaction and pymatgen's interface calculation are taken as given (pure functions)",
          "reactions are compared up to a positive factor"]


def gen_case(rng, chem=None):
    chem = chem or gen.chemistry(rng, n_elems=(2, 4), n_comp=(2, 7))
    k = rng.choice([1, 1, 1, 1, 2, 3])
    en = [enums.gen_enum(rng, chem, p_novel=0.1 if k == 1 else 0.0) for _ in range(k)]
    c = {"chem": chem, "enums": en, "mode": "single" if k == 1 and rng.random() < 0.85 else "union", "sched": gen.schedule(rng)}
    c["faults"] = gen.faults(rng, gen.TRANSPARENT, (1, 3)) if rng.random() < 0.5 else []
    return c


def make(rng, tier):
    if rng.random() < 0.08:
        return wide(rng)
    return gen_case(rng)


def wide(rng):
    """Reactions of four and five phases on one side need four or five elements, so few phases in all."""
    k = rng.choice([4, 4, 5])
    chem = gen.chemistry(rng, n_elems=(k, k), n_comp=(1, 1), polymorphs=0.0, interp=0.0, exp=0.0, exchange=0.0)
    els = gen.elems(chem)
    for e in chem["ents"]:
        if len(e["c"]) > 1:
            e["c"] = {x: rng.choice([1, 1, 2, 3, 4]) for x in els}
    c = gen_case(rng, chem)
    for e in c["enums"]:
        if e["kind"] in ("basic", "open"):
            e["n"] = k
            e.pop("filter_by_chemsys", None)
            e["chunk_size"] = max(e["chunk_size"], 13)
    return c


def run(case):
    from rxn_network.entries.entry_set import GibbsEntrySet
    from rxn_network.enumerators.utils import run_enumerators

    res = base.Res()
    ents = gen.build_entries(case["chem"])
    refs, amb = [], set()
    try:
        for e in case["enums"]:
            c, a = enums.reference(e, ents)
            refs.append(c)
            amb |= a
    except Exception as err:  # no hull for this combination of elements: the operation may refuse too
        ref_err = err
        refs = None
    if case["mode"] == "single":
        def op():
            return enums.make_enum(case["enums"][0]).enumerate(GibbsEntrySet(ents))
    else:
        def op():
            return run_enumerators([enums.make_enum(e) for e in case["enums"]], GibbsEntrySet(ents))

    spec = dict(case["sched"])
    r = base.Run(spec, op, res)
    if case.get("faults") and r.ok:
        judge(case, r, refs, amb, res, "fault-free")
        kf = gen.resolve(case["faults"], len(r.cl.tasks), r.cl.n_puts)
        r2 = base.Run(spec, op, res, kf)
        judge(case, r2, refs, amb, res, "transparent faults")
    else:
        judge(case, r, refs, amb, res, "fault-free")
    if refs is not None:
        n = sum(sum(x.values()) for x in refs)
        res.nontrivial = n > 0 and res.tasks >= 2
        res.probe("reference_reactions", n)
        res.probe("empty_reference", n == 0)
    res.probe("ambiguous_keys", len(amb))
    for e in case["enums"]:
        res.probe("kind_" + e["kind"])
    return res


def judge(case, r, refs, amb, res, phase):
    if refs is None:
        if r.ok:
            res.skipped += 1
        elif r.hang:
            res.bad("hang", f"{phase}: {r.why()}")
        res.probe("reference_refused")
        return
    if not r.ok:
        res.bad("failed:" + (type(r.err).__name__ if r.err is not None else "hang"), f"{phase}: {r.why()}")
        return
    try:
        rx = list(r.value)
    except Exception as e:
        res.bad("unreadable", f"{phase}: iterating the result: {type(e).__name__}: {e}")
        return
    if len(rx) != len(r.value):
        res.bad("length", f"{phase}: iterates {len(rx)} reactions, len {len(r.value)}")
        return
    for x in rx:
        if not conserved(x):
            res.bad("unbalanced", f"{phase}: {x}")
            return
    got = canon.multiset(rx)
    if case["mode"] == "single":
        want = refs[0]
        if case["enums"][0].get("filter_duplicates"):
            want = Counter(dict.fromkeys(want, 1))
        if case["enums"][0]["kind"] == "grand":
            got, want, amb = untype(got), untype(want), {k2(k) for k in amb}
    else:
        want = Counter()
        for x in refs:
            want.update(dict.fromkeys(untype(x), 1))
        want = Counter(dict.fromkeys(want, 1))
        got = untype(got)
        amb = {k2(k) for k in amb}
    if amb:
        got = Counter({k: v for k, v in got.items() if k not in amb})
        want = Counter({k: v for k, v in want.items() if k not in amb})
    if case["mode"] == "single" and case["enums"][0]["kind"] in ("gibbs", "grand"):
        # the same reaction is found from several reactant pairs; which of those pairs are looked at is
        # not part of the contract, so a multiplicity between 1 and the number of pairs is right
        want = Counter({k: min(v, max(got.get(k, 0), 1)) for k, v in want.items()})
    d = canon.diff(got, want)
    if d:
        lost, extra = want - got, got - want
        cls = "repeated" if not lost and set(got) == set(want) else "lost" if not extra else "added" if not lost else "different"
        res.bad(cls, f"{phase}: {d}")


def k2(k):
    return ("r", k[1])


def untype(c):
    out = Counter()
    for k, v in c.items():
        out[k2(k)] += v
    return out


def conserved(rxn):
    tot = {}
    for comp, c in zip(rxn.compositions, rxn.coefficients):
        for el, a in comp.items():
            tot[str(el)] = tot.get(str(el), 0.0) + float(c) * a
    s = max((abs(float(c)) for c in rxn.coefficients), default=0.0)
    return s > 0 and all(abs(v) < 1e-5 * max(1, s) for v in tot.values())


def shrink(case):
    import copy

    if len(case["enums"]) > 1:
        for i in range(len(case["enums"])):
            d = copy.deepcopy(case)
            del d["enums"][i]
            if len(d["enums"]) == 1 and case["mode"] == "union":
                yield {**copy.deepcopy(d), "mode": "single"}
            yield d
    yield from base.shrink_common(case)
    for i, e in enumerate(case["enums"]):
        for k in list(e):
            if k in ("kind", "open_phases", "open_elem", "mu"):
                continue
            d = copy.deepcopy(case)
            del d["enums"][i][k]
            yield d



