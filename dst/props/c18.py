"""C18: answers of a chemical potential diagram do not depend on earlier queries."""
from __future__ import annotations

import copy
import warnings
from itertools import combinations

import numpy as np

from dst import base, canon, gen, seams

QUICK = 1500
THOROUGH = 15000
RULE = ("A case is a random entry set (stable, metastable and unstable phases, polymorphs; grand potential entries in a third of "
        "the cases), one diagram of it, and a history of 3-12 queries (domain distance, offset, domains, metastable domains, "
        "distance of a whole reaction), repeated and in any order, in which the numerical construction underneath (half-space "
        "intersection, convex hull, nearest-neighbour tree) fails at chosen calls with a Qhull error, out of memory or an "
        "interrupt. Each answer must be that of a new diagram asked only this question. Non-trivial: a metastable phase was "
        "queried before another query, or an injected failure reached the caller.")
REAL = ["ChemicalPotentialDiagram", "GibbsEntrySet", "ChempotDistanceCalculator", "pymatgen, scipy Qhull"]
STUB = ["failures of HalfspaceIntersection, ConvexHull and KDTree are injected at the call"]
ASSUME = ["one fresh diagram asked one question is right (definition of the distance is not this property)"]


def make(rng, tier):
    while True:
        chem = gen.chemistry(rng, n_elems=(2, 3) if rng.random() < 0.85 else (4, 4), n_comp=(2, 6), polymorphs=0.4, exp=0.1, interp=0.0)
        els = gen.elems(chem)
        if len(els) < 2:
            continue
        for e in chem["ents"]:  # some phases far from stable
            if e["k"] == "g" and len(gen.parse(e["c"])) > 1 and rng.random() < 0.3:
                e["e"] = round(rng.uniform(-0.4, 0.3), 7)
        # a pair exactly on the hull between its elements now and then
        if rng.random() < 0.08:
            c = [e for e in chem["ents"] if e["k"] == "g" and len(gen.parse(e["c"])) > 1]
            if c:
                rng.choice(c)["on_hull"] = 1
        break
    oe = None
    if len(els) >= 3 and rng.random() < 0.35:
        oe = [rng.choice(els), round(-rng.uniform(0, 1), 3)]
    n = rng.randint(3, 12)
    qs = []
    for _ in range(n):
        k = rng.choice(["dist", "dist", "dist", "offset", "offset", "domains", "meta", "rxn", "rxn"])
        q = {"q": k, "a": rng.randrange(10000) / 10000, "b": rng.randrange(10000) / 10000}
        if k == "rxn":
            q["p"] = rng.randrange(10000) / 10000
            q["mu"] = rng.choice(["sum", "sum", "mean", "max", "spread"])
            if rng.random() < 0.4:
                q["p2"] = rng.randrange(10000) / 10000
        if rng.random() < 0.35:
            q["fault"] = {"at": rng.choice([1, 1, 2, 2, 3, 4, 6]), "exc": rng.choice(["qhull", "qhull", "memory", "interrupt", "value"])}
        qs.append(q)
        if rng.random() < 0.3:
            qs.append({k: v for k, v in q.items() if k != "fault"})
    return {"chem": chem, "open": oe, "ops": qs, "as_set": rng.random() < 0.5,
            "min_limit": rng.choice([-100.0, -100.0, -50.0, -20.0])}


def entries(case):
    from pymatgen.core.composition import Element

    ents = gen.build_entries(case["chem"])
    if case["open"]:
        el, mu = case["open"]
        ents = [e.to_grand_entry({Element(el): mu}) for e in ents
                if {str(x) for x in e.composition.elements} != {el}]
    return ents


def diagram(case, ents):
    from rxn_network.entries.entry_set import GibbsEntrySet
    from rxn_network.thermo.chempot_diagram import ChemicalPotentialDiagram

    # the given order, or the (fixed) order of a set
    es = GibbsEntrySet(ents) if case["as_set"] else list(ents)
    return ChemicalPotentialDiagram(es, default_min_limit=case["min_limit"])


def ask(cpd, ents, q):
    from rxn_network.costs.calculators import ChempotDistanceCalculator

    fs = sorted({e.composition.reduced_formula for e in ents})
    a, b = fs[int(q["a"] * len(fs))], fs[int(q["b"] * len(fs))]
    k = q["q"]
    if k == "dist":
        return cpd.shortest_domain_distance(a, b)
    if k == "offset":
        return cpd.get_offset(ents[int(q["a"] * len(ents))])
    if k == "domains":
        return {f: np.array(v) for f, v in cpd.domains.items()}
    if k == "meta":
        return {f: np.array(v) for f, v in cpd.metastable_domains.items()}
    # a reaction a -> b + c by definition of the calculator, without needing it balanced
    ps = [b] + [fs[int(q[k] * len(fs))] for k in ("p", "p2") if k in q]
    es = {e.composition.reduced_formula: e for e in ents}
    calc = ChempotDistanceCalculator(cpd, spread if q["mu"] == "spread" else q["mu"])
    return calc.calculate(FakeRxn([es[a]], [es[p] for p in ps]))


def spread(d):
    """An aggregation of the caller's own."""
    return max(d) - 0.5 * min(d)


class FakeRxn:
    def __init__(self, r, p):
        self.reactant_entries, self.product_entries = r, p


def same(x, y):
    if isinstance(x, dict):
        if set(x) != set(y):
            return False
        return all(same_points(x[k], y[k]) for k in x)
    return abs(float(x) - float(y)) < 1e-7


def same_points(a, b):
    if a.shape != b.shape:
        return False
    d = np.abs(a[:, None, :] - b[None, :, :]).max(axis=2)
    return bool((d.min(axis=0) < 1e-5).all() and (d.min(axis=1) < 1e-5).all())


def geometry(case, ents):
    """{formula: corners of its domain} from the energies alone, or None where that hangs on rounding."""

    els = sorted({x for e in ents for x in e.composition.elements})
    low = {}
    for e in ents:
        f = e.composition.reduced_formula
        if f not in low or e.energy_per_atom < low[f].energy_per_atom:
            low[f] = e
    ref = [min((e.energy_per_atom for e in low.values() if e.composition.is_element and e.composition.elements[0] == x), default=None) for x in els]
    if None in ref:
        return None
    planes, names = [], []
    for f, e in low.items():
        x = [e.composition.get_atomic_fraction(k) for k in els]
        form = e.energy_per_atom - float(np.dot(x, ref))
        if not e.composition.is_element:
            if abs(form) < 1e-6:
                return None
            if form > 0:
                continue
        planes.append([*x, e.energy_per_atom])
        names.append(f)
    n = len(els)
    for i in range(n):
        planes.append([-1.0 if j == i else 0.0 for j in range(n)] + [-case["min_limit"]])
        planes.append([1.0 if j == i else 0.0 for j in range(n)] + [0.0])
    P = np.array(planes)
    A, b = P[:, :-1], P[:, -1]
    if len(P) > 26:
        return None
    out = {f: [] for f in names}
    for c in combinations(range(len(P)), n):
        M = A[list(c)]
        d = abs(np.linalg.det(M))
        if d < 1e-12:
            continue
        v = np.linalg.solve(M, b[list(c)])
        if d < 1e-5 and (np.abs(v) < 1e3).all():
            return None
        slack = A @ v - b
        if slack.max() > 1e-5:
            continue
        if slack.max() > 1e-8 or ((slack < -1e-8) & (slack > -1e-5)).any():
            return None
        for i in np.where(np.abs(slack) <= 1e-8)[0]:
            if i < len(names):
                out[names[i]].append(v)
    return {f: np.array(v) for f, v in out.items() if v}


def apart(cpd, a, b):
    """Distance of two domains."""
    x, y = (cpd.domains[f] if f in cpd.domains else cpd.metastable_domains[f] for f in (a, b))
    return float(np.sqrt(((np.array(x)[:, None, :] - np.array(y)[None, :, :]) ** 2).sum(-1)).min())


def offset(cpd, ents, e):
    """How far an entry is from being stable, along its plane; None where it can not be told."""
    from dst.props.c14 import hull

    f = e.composition.reduced_formula
    h = hull(ents, e.composition)
    if h is None:
        return None
    if f in cpd.domains and e.energy_per_atom <= min(x.energy_per_atom for x in ents if x.composition.reduced_formula == f) + 1e-9:
        return 0.0
    fr = [e.composition.get_atomic_fraction(x) for x in cpd.elements]
    return max(e.energy_per_atom - h, 0.0) / float(np.linalg.norm(fr))


MU = {"sum": sum, "max": max, "mean": lambda d: sum(d) / len(d), "spread": spread}


def reaction_distance(cpd, ents, reactants, products, mu):
    """The aggregated distance of a reaction given by its entries."""
    off = [[offset(cpd, ents, e) for e in side] for side in (reactants, products)]
    if None in off[0] + off[1]:
        return None
    name = lambda e: e.composition.reduced_formula
    r, p = list(zip(reactants, off[0])), list(zip(products, off[1]))
    return MU[mu]([apart(cpd, name(x), name(y)) + i + j for (x, i), (y, j) in [(a, b) for a in r for b in p] + list(combinations(p, 2))])


def definition(case, new, ents, q, got):
    """'' or what the answer should be, from energies and domains ('new': a diagram that was asked the same question)."""
    fs = sorted({e.composition.reduced_formula for e in ents})
    if q["q"] == "domains":
        want = geometry(case, ents)
        if want is None:
            return ""
        if set(got) != set(want):
            return f"domains of {sorted(want)}, not {sorted(got)}"
        for f, v in want.items():
            g = got[f]
            d = np.abs(g[:, None, :] - v[None, :, :]).max(axis=2)
            if not (d.min(axis=0) < 1e-4).all() or not (d.min(axis=1) < 1e-4).all():
                return f"{f} with corners {np.unique(np.round(v, 4), axis=0).tolist()}, not {np.unique(np.round(g, 4), axis=0).tolist()}"
        return ""
    if q["q"] == "dist":
        w = apart(new, fs[int(q["a"] * len(fs))], fs[int(q["b"] * len(fs))])
    elif q["q"] == "offset":
        w = offset(new, ents, ents[int(q["a"] * len(ents))])
    elif q["q"] == "rxn":
        es = {e.composition.reduced_formula: e for e in ents}
        r, ps = fs[int(q["a"] * len(fs))], [fs[int(q["b"] * len(fs))]] + [fs[int(q[k] * len(fs))] for k in ("p", "p2") if k in q]
        w = reaction_distance(new, ents, [es[r]], [es[p] for p in ps], q["mu"])
    else:
        return ""
    return "" if w is None or abs(float(got) - w) < 3e-5 else str(w)


def show(x):
    if isinstance(x, dict):
        return {k: np.round(v, 4).tolist()[:3] for k, v in x.items()}
    return x


def fp_any(e):
    if hasattr(e, "original_entry"):
        return ("grand", canon.fp_entry(e.original_entry), canon.fp({str(k): v for k, v in e.chempots.items()}), repr(e.energy))
    return canon.fp_entry(e)


def run(case):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return _run(case)


def _run(case):
    res = base.Res()
    ents = entries(case)
    try:
        cpd = diagram(case, ents)
    except Exception:
        res.skipped += 1
        return res
    before = [fp_any(e) for e in ents]
    sig = []
    faulty = seams.CallFaults([("scipy.spatial", "HalfspaceIntersection"), ("scipy.spatial", "ConvexHull"), ("scipy.spatial", "KDTree")])
    meta_asked = False
    try:
        for i, q in enumerate(case["ops"]):
            try:
                new = diagram(case, entries(case))
                want, werr = ask(new, entries(case), q), None
            except Exception as e:
                want, werr = None, e
            f = q.get("fault")
            got = err = None
            try:
                with faulty.plan(f["at"] if f else None, seams.EXC[f["exc"]] if f else None):
                    n0 = faulty.fired
                    got = ask(cpd, ents, q)
            except (Exception, KeyboardInterrupt) as e:
                err = e
            fired = faulty.fired > n0
            sig.append((q["q"], fired, type(err).__name__))
            res.steps += 1
            where = f"query {i} ({q['q']}) after {[x['q'] + ('!' if 'fault' in x else '') for x in case['ops'][:i]]}"
            if fired:
                res.fire("library_" + f["exc"])
                if err is not None:
                    res.nontrivial = True
            if err is not None:
                if not fired and werr is None:
                    res.bad("failed", f"{where}: {type(err).__name__}: {str(err)[:300]} @ {base.where(err)}; a new diagram answers {show(want)}")
                    return res
            elif werr is not None:
                res.bad("answered", f"{where}: answered {show(got)}; a new diagram raises {type(werr).__name__}: {str(werr)[:200]}")
                return res
            elif not same(got, want):
                res.bad("differs", f"{where}: {show(got)}; a new diagram answers {show(want)}")
                return res
            if isinstance(werr, (TypeError, AttributeError)):
                res.bad("failed", f"{where}: a new diagram raises {type(werr).__name__}: {str(werr)[:300]} @ {base.where(werr)}")
                return res
            if err is None and werr is None:
                d = definition(case, new, ents, q, got)
                if d:
                    res.bad("wrong", f"{where}: {show(got)}; it should be {d}")
                    return res
            if meta_asked:
                res.nontrivial = True
            meta_asked = meta_asked or len(cpd._metastable_domains if hasattr(cpd, "_metastable_domains") else ()) > 0
            if i == len(case["ops"]) - 1 or fired:
                now = [fp_any(e) for e in ents]
                if now != before:
                    res.bad("entries", f"{where}: the caller's entries changed: {canon.first_diff(tuple(before), tuple(now))}")
                    return res
                if sorted(map(repr, map(fp_any, cpd.entries))) != sorted(map(repr, before)):
                    res.bad("diagram-entries", f"{where}: the diagram's entries changed")
                    return res
    finally:
        faulty.close()
    res.execs += 1
    res.sigs.append(repr(sig))
    res.probe("queries", len(sig))
    return res


def shrink(case):
    yield from base.shrink_common(case)
    for i, q in enumerate(case["ops"]):
        if "fault" in q:
            d = copy.deepcopy(case)
            del d["ops"][i]["fault"]
            yield d
    for k, v in (("open", None), ("as_set", False), ("min_limit", -100.0)):
        if case[k] != v:
            yield {**copy.deepcopy(case), k: v}
