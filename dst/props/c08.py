"""C08: solved pathways sum to the net reaction and none within the limits is missing."""
from __future__ import annotations

import copy
from itertools import combinations

import numpy as np

from dst import base, canon, gen, solve

QUICK = 260
THOROUGH = 8000
RULE = ("A case is a random entry set, up to 14 path reactions (both directions, multiples, repeats) in several pathways, a net "
        "reaction that mostly is a combination of two or three of them, random limits, chunk and batch sizes, intermediate "
        "search settings, optional open element, a cluster schedule and transparent faults placed on the solver's own tasks. "
        "Non-trivial: the reference has at least one pathway.")
REAL = ["PathwaySolver, PathwaySet, BalancedPathway", "enumerators used to find intermediate reactions", "duplicate filter"]
STUB = ["ray (scheduler, workers, object store): deterministic simulator; task arguments and results are pickled for real"]
ASSUME = ["combinations of linearly dependent reactions, or whose solution is within 1e-4 of a limit, may or may not be returned",
          "interdependent: two or more of the steps, none of which runs from precursors alone, each consume a non-precursor "
          "that another of them makes"]


def make(rng, tier):
    c = None
    while c is None:
        c = solve.gen_solve(rng, n_comp=(3, 6))
    c["sched"] = gen.schedule(rng)
    c["faults"] = gen.faults(rng, gen.TRANSPARENT, (1, 3)) if rng.random() < 0.4 else []
    return c


def run(case):
    res = base.Res()
    st = solve.setup(case)
    if st is None:
        res.skipped += 1
        return res
    es, ps, net, cf, prx = st
    try:
        ref = solve.Reference(case, es, net, cf, prx, limit=6000)
    except Exception as e:
        ref = None
        res.probe("reference_refused")
    if ref is not None and ref.too_big:
        res.skipped += 1
        return res
    sv = solve.solver(case, es, ps, cf)
    r = base.Run(case["sched"], lambda: solve.solve(case, sv, net, filt=False), res)
    if ref is None:
        res.skipped += 1
        if r.hang:
            res.bad("hang", r.why())
        return res
    res.nontrivial = bool(ref.solutions)
    res.probe("pathways", len(ref.solutions))
    res.probe("reactions", ref.n_rxns)
    res.probe("with_intermediates", case["find"])
    if not judge(case, ref, r, cf, net, res, "", None):
        return res
    if case["faults"]:
        kf = gen.resolve(case["faults"], len(r.cl.tasks), r.cl.n_puts)
        r2 = base.Run(case["sched"], lambda: solve.solve(case, sv, net, filt=False), res, kf)
        if not judge(case, ref, r2, cf, net, res, "transparent faults: ", None):
            return res
    if case["filter"]:
        pc = {e.composition.reduced_formula for e in net.reactant_entries}
        keep = {ref.key_of(p)[0] for p in r.value.paths if not interdependent(p.reactions, pc)}
        res.probe("interdependent", len(r.value.paths) - len(keep))
        r3 = base.Run({**case["sched"], "seed": case["sched"]["seed"] + 1}, lambda: solve.solve(case, sv, net, filt=True), res)
        judge(case, ref, r3, cf, net, res, "interdependent filtered: ", keep)
    return res


def interdependent(rxns, precursors):
    steps = [({c.reduced_formula for c in x.reactants}, {c.reduced_formula for c in x.products} - precursors) for x in rxns]
    steps = [(a - precursors, b) for a, b in steps if a - precursors]
    for n in range(2, len(steps) + 1):
        for sub in combinations(range(len(steps)), n):
            if all(any(steps[i][0] & steps[j][1] for j in sub if j != i) for i in sub):
                return True
    return False


def judge(case, ref, r, cf, net, res, what, keep):
    if not r.ok:
        res.bad("hang" if r.hang else "failed", f"{what}{r.why()}")
        return False
    ps = r.value
    paths = list(ps.paths)
    if len(paths) != len(ps):
        res.bad("length", f"{what}len {len(ps)}, {len(paths)} paths")
        return False
    seen = set()
    last = -1.0
    for p in paths:
        if len(p.reactions) != len(p.coefficients) or len(p.reactions) != len(p.costs):
            res.bad("malformed", f"{what}{len(p.reactions)} reactions, {len(p.coefficients)} multiplicities, {len(p.costs)} costs")
            return False
        tot = np.zeros(len(ref.ents))
        try:
            for x, m in zip(p.reactions, p.coefficients):
                tot += float(m) * ref.vec(x)
        except KeyError as e:
            res.bad("unknown-phase", f"{what}a step uses a phase that is not one of the entries: {e}")
            return False
        if np.abs(tot - ref.net_vec).max() > 1e-4 * max(1, np.abs(ref.net_vec).max()):
            res.bad("not-net", f"{what}the steps do not add up to {net}: {[str(x) for x in p.reactions]} x {list(p.coefficients)}")
            return False
        if min(p.coefficients) <= 0:
            res.bad("multiplicity", f"{what}multiplicities {list(p.coefficients)}")
            return False
        k, d = ref.key_of(p)
        if len(p.reactions) > case["n"] or len(k) != len(p.reactions):
            res.bad("limit", f"{what}{len(p.reactions)} steps of which {len(k)} distinct; limit {case['n']}")
            return False
        if ref.netk in k:
            res.bad("net-as-step", f"{what}the net reaction, whatever its amounts, is a step: {[str(x) for x in p.reactions]}")
            return False
        bad = [x for x in k if x not in ref.keys and x not in ref.amb]
        if bad:
            res.bad("unknown-step", f"{what}a step is neither given nor an intermediate reaction: {canon.k_str((0, bad[0]))}")
            return False
        for x, c in zip(p.reactions, p.costs):
            if abs(float(c) - cf.evaluate(x)) > 1e-6:
                res.bad("cost", f"{what}step {x} has cost {c}, want {cf.evaluate(x)}")
                return False
        if k in seen:
            res.bad("repeated", f"{what}the same pathway twice: {[str(x) for x in p.reactions]}")
            return False
        seen.add(k)
        a = float(np.dot(p.coefficients, p.costs) / np.sum(p.coefficients))
        if abs(a - p.average_cost) > 1e-8 or a < last - 1e-8:
            res.bad("order", f"{what}average cost {a} after {last}")
            return False
        last = a
        if k in ref.solutions:
            for key, m in ref.solutions[k].items():
                if abs(d[key] - m) > 1e-5 * max(1, m):
                    res.bad("multiplicity", f"{what}multiplicity {d[key]} instead of {m}")
                    return False
    want = set(ref.solutions)
    if keep is not None:
        want = {k for k in want if k in keep}
        if seen - keep:
            res.bad("interdependent", f"{what}returned although interdependent")
            return False
    missing = [k for k in want - seen if not (k & ref.amb)]
    extra = [k for k in seen - set(ref.solutions) - ref.undecided if not (k & ref.amb)]
    if missing:
        res.bad("missing", f"{what}{len(missing)} of {len(want)} pathways missing, e.g. {[canon.k_str((0, x)) for x in sorted(missing[0])]}")
        return False
    if extra:
        res.bad("extra", f"{what}{len(extra)} pathways more than the reference")
        return False
    return True


def shrink(case):
    yield from base.shrink_common(case)
    for i in range(len(case["paths"])):
        if len(case["paths"]) > 1:
            d = copy.deepcopy(case)
            del d["paths"][i]
            yield d
    for i, p in enumerate(case["paths"]):
        for j in range(len(p)):
            if len(p) > 1:
                d = copy.deepcopy(case)
                del d["paths"][i][j]
                yield d
    for k, v in (("open", None), ("filter", False), ("mini", False), ("basic", False), ("find", False), ("chunk", 100000),
                 ("batch", None), ("n", 1), ("n", 2)):
        if case[k] != v and not (k == "n" and case["n"] < v):
            yield {**copy.deepcopy(case), k: v}
