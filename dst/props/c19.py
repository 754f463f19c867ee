"""C19: saved objects restore equal in any interpreter."""
from __future__ import annotations

import contextlib
import copy
import io
import json
import math
import warnings

import numpy as np

from dst import base, canon, enums, gen, kernel, net, reborn, rx, solve
from dst.props import c15

QUICK = 900
THOROUGH = 30000
RULE = ("A case is 1-4 objects of any saveable kind (entries of each kind, entry sets with their settings, reactions, open and basic "
        "reactions, reaction sets, pathways, pathway sets, pathway solvers, networks, enumerators, cost functions, calculators, "
        "diagrams and interface hulls), used to a random extent, then saved as JSON text. The process is gone; a new interpreter "
        "with another hash seed restores each from the text (as a decoded document, by from_dict, twice from the same decoded "
        "form, or saved and restored again) and reports everything observable about it, including the results of using it, which "
        "must be what the original reports. Non-trivial: the object was used before it was saved, or carries data.")
REAL = ["all saveable classes, their as_dict and from_dict", "monty and pymatgen encoding and decoding", "separate interpreters"]
STUB = ["the crash: the process is abandoned after the text was saved", "ray (enumerations, duplicate filter): simulator"]
ASSUME = ["the text is stored and read back intact (storage faults: C12)",
          "enumerations that keep underdetermined, unbalanced or changed reactions (not the default) are compared by settings only: the "
          "coefficients of such reactions are not unique",
          "metadata keys that are elements may come back as their symbols (as_dict documents this)"]
KINDS = ["entry", "entry", "entry", "eset", "eset", "rxn", "rxn", "orxn", "brxn", "rset", "rset", "path", "bpath", "pset", "pset", "solver",
         "net", "enum", "enum", "cost", "cpd", "hull", "adj"]
HOW = ["decoder", "decoder", "from_dict", "twice", "resave"]


def make(rng, tier):
    c = solve.gen_solve(rng)
    while c is None:
        c = solve.gen_solve(rng)
    c["pick"] = None
    for r in c["rxns"]:
        if rng.random() < 0.5:
            r["d"] = {"tag": rng.randint(0, 9), "c": round(rng.uniform(0, 1), 4)}
            if rng.random() < 0.3:
                r["d"]["nested"] = {"l": [1, 2.5, None], "s": "x"}
    for e in c["chem"]["ents"]:
        if e["k"] == "g" and rng.random() < 0.3:
            e["adj"] = rng.choice(["const", "co2", "carb"])
    obs = []
    for _ in range(rng.choice([1, 2, 3, 4])):
        k = rng.choice(KINDS)
        o = {"k": k, "how": rng.choice(HOW), "use": rng.random() < 0.7, "a": [rng.randrange(10000) / 10000 for _ in range(6)]}
        if k == "entry":
            o["e"] = c15_entry(rng)
        if k == "eset":
            o.update(hull=rng.random() < 0.5, mini=rng.random() < 0.25, idx=rng.random() < 0.5)
        if k == "enum":
            o["enum"] = enums.gen_enum(rng, c["chem"], p_novel=0.0)
            o["run"] = rng.random() < 0.5
            o["set"] = {kk: v for kk, v in (("remove_unbalanced", rng.random() < 0.5), ("remove_changed", rng.random() < 0.5),
                                            ("max_num_constraints", rng.choice([1, 2])), ("quiet", True)) if rng.random() < 0.5}
        if k == "cost":
            o["cost"] = rng.choice([{"f": "soft", "t": 700}, {"f": "soft", "p": ["c"]}, {"f": "soft", "p": ["c", "energy_per_atom"], "t": 800, "w": [0.25, 0.75]},
                                    {"f": "sum", "p": ["c"]}, {"f": "sum", "p": ["c", "energy_per_atom"], "w": [-0.1, 1.5]}])
        if k in ("rset", "pset", "rxn"):
            o["odd"] = rng.random() < 0.3
        obs.append(o)
    c["obs"] = obs
    return c


def c15_entry(rng):
    e = rng.choice(c15.make(rng, "quick")["es"])
    e["data"].pop("poison", None)
    return e


# ------------------------------------------------------------------ making the objects
def build(case, o):
    """The object, or None if this case has none."""
    from pymatgen.core.composition import Element
    from rxn_network.core import Composition
    from rxn_network.costs.functions import Softplus, WeightedSum
    from rxn_network.entries.entry_set import GibbsEntrySet
    from rxn_network.network.network import ReactionNetwork
    from rxn_network.pathways.balanced import BalancedPathway
    from rxn_network.pathways.basic import BasicPathway
    from rxn_network.pathways.pathway_set import PathwaySet
    from rxn_network.reactions.basic import BasicReaction
    from rxn_network.reactions.hull import InterfaceReactionHull
    from rxn_network.reactions.open import OpenComputedReaction
    from rxn_network.reactions.reaction_set import ReactionSet
    from rxn_network.thermo.chempot_diagram import ChemicalPotentialDiagram

    k, a = o["k"], o["a"]
    if k == "entry":
        return c15.entry(o["e"])
    if k == "adj":
        return c15.adjustments({"adj": [["const", "co2", "carb"][int(a[0] * 3)]]}, [300, 700, 1500][int(a[1] * 3)])[0]
    ents = gen.build_entries(case["chem"])
    for e, s in zip(ents, case["chem"]["ents"]):
        if s.get("adj"):
            e.energy_adjustments = [*e.energy_adjustments, *c15.adjustments({"adj": [s["adj"]]}, e.temperature)]
    bu = rx.by_u(case["chem"], ents)
    if k == "eset":
        s = GibbsEntrySet(ents, calculate_e_above_hulls=o["hull"], minimize_obj_size=o["mini"])
        if o["idx"]:
            s.build_indices()
        return s
    if k == "cpd":
        es = GibbsEntrySet(ents)
        if len(es.chemsys) < 2:
            return None
        return ChemicalPotentialDiagram(es.entries_list, default_min_limit=[-15, -30][int(a[0] * 2)])
    if k == "enum":
        en = enums.make_enum(o["enum"])
        for kk, v in o["set"].items():
            setattr(en, kk, v)
        return en
    if k == "cost":
        c = o["cost"]
        w = c.get("w") or ([1.0] * len(c["p"]) if "p" in c else None)
        return WeightedSum(params=c.get("p"), weights=w) if c["f"] == "sum" else Softplus(temp=c.get("t", 300), params=c.get("p"), weights=w)
    oe, mu = case["open"] or (None, None)
    if k in ("rxn", "brxn", "hull", "net"):
        oe = mu = None
    if k == "orxn" and oe is None:
        oe, mu = gen.elems(case["chem"])[0], -0.4
    rs = rx.build(case["rxns"], bu, oe, mu)
    if not rs:
        return None
    r = rs[int(a[0] * len(rs))]
    if o.get("odd"):  # as left behind by balancing
        r.lowest_num_errors = math.inf if a[5] < 0.5 else 2
        if a[5] < 0.3:
            r.data["score"] = float("nan") if a[5] < 0.15 else float("inf")
    if k in ("rxn", "orxn"):
        return r
    if k == "brxn":
        return BasicReaction(r.compositions, r.coefficients, data=copy.deepcopy(r.data), lowest_num_errors=r.lowest_num_errors)
    if k == "rset":
        n = int(a[1] * (len(rs) + 1))
        if a[2] < 0.5:
            return ReactionSet.from_rxns(rs[:n] or rs, filter_duplicates=False)
        return ReactionSet.from_rxns(rs[:n] or rs, entries=ents, open_elem=oe, chempot=mu or 0.0)
    if k == "hull":
        x = [i for i in rs if len(i.reactants) == 2]
        if not x:
            return None
        p = x[int(a[1] * len(x))].reactants
        return InterfaceReactionHull(*p, [i for i in x if set(i.reactants) == set(p)])
    if k == "net":
        for i, q in enumerate(rs):
            q.data.setdefault("c", i / 7)
        nw = ReactionNetwork(ReactionSet.from_rxns(rs), Softplus(400 + 100 * int(a[1] * 5)))
        if a[2] < 0.8:
            nw.build()
            f = [e.composition.reduced_formula for e in nw.entries.entries_list]
            if a[3] < 0.7:
                nw.set_precursors([f[int(a[4] * len(f))], f[int(a[5] * len(f))]])
                if a[3] < 0.5:
                    nw.set_target(f[int(a[0] * len(f))])
        return nw
    cf = Softplus(case["cost"])
    if k in ("path", "bpath"):
        rr = rs[:1 + int(a[1] * 4)]
        costs = [cf.evaluate(x) for x in rr] if a[2] < 0.8 or k == "bpath" else None
        if k == "path":
            return BasicPathway(rr, costs)
        return BalancedPathway(rr, [round(0.25 + x, 3) for x in (a + a)[:len(rr)]], costs, balanced=a[3] < 0.5)
    paths = []
    for i, p in enumerate(case["paths"]):
        rr = [rs[j % len(rs)] for j in p]
        costs = [cf.evaluate(x) for x in rr]
        paths.append(BalancedPathway(rr, [1.0 + j for j in range(len(rr))], costs, balanced=True) if k == "pset" and a[i % 6] < 0.4 else BasicPathway(rr, costs))
    ps = PathwaySet.from_paths(paths)
    if k == "pset":
        return ps
    return solve.solver(case, GibbsEntrySet(ents), ps, cf)


# ------------------------------------------------------------------ what can be observed
def F(x):
    return canon.q(x, 7) if isinstance(x, (int, float, np.floating, np.integer)) and not isinstance(x, bool) else x


def P(x):
    """Plain form of data."""
    if isinstance(x, dict):
        return sorted([str(k), P(v)] for k, v in x.items())
    if isinstance(x, (list, tuple, np.ndarray)):
        return [P(v) for v in x]
    if isinstance(x, (set, frozenset)):
        return sorted(map(repr, map(P, x)))
    if isinstance(x, (bool, str)) or x is None:
        return x
    if isinstance(x, (int, float, np.number)):
        return F(float(x))
    if hasattr(x, "coefficients") and hasattr(x, "entries"):
        return ob_rxn(x)
    if hasattr(x, "composition"):
        return repr(canon.entry_key(x))
    return str(x)


def ob_entry(e):
    from pymatgen.core.composition import Element

    o = {"value": repr(c15.value(e)), "per_atom": F(e.energy_per_atom), "unc": F(e.correction_uncertainty), "is_element": e.is_element, "unique_id": str(e.unique_id),
         "repr": repr(e), "data": P(e.data), "name": getattr(e, "name", None), "self": e == e, "hash": hash(e) == hash(copy.deepcopy(e)),
         "grand": F(e.to_grand_entry({Element("O"): -0.7}).energy), "uncorrected": F(e.uncorrected_energy)}
    try:
        o["hot"] = repr(c15.value(e.get_new_temperature(1350)))
    except ValueError as x:
        o["hot"] = str(x)
    return o


def ob_eset(s, a):
    s.entries_list  # noqa: B018
    o = {"n": len(s), "list": [repr(c15.value(e)) for e in s.entries_list], "flags": [s.calculate_e_above_hulls, s.minimize_obj_size],
         "data": [P(e.data) for e in s.entries_list], "T": s.temperature, "chemsys": sorted(s.chemsys),
         "min": sorted((f, repr(canon.entry_key(e))) for f, e in s.min_entries_by_formula.items())}
    n = s.entries_list[int(a[0] * len(s))]
    o["contains"] = n in s
    for nm, fn in (("hull", lambda: [F(s.get_e_above_hull(e)) for e in s.entries_list]),
                   ("stable", lambda: sorted(repr(canon.entry_key(e)) for e in s.filter_by_stability(0.05))),
                   ("hot", lambda: flags(s.get_entries_with_new_temperature(950))),
                   ("sub", lambda: flags(s.get_subset_in_chemsys(sorted(s.chemsys)[:2]))),
                   ("copy", lambda: flags(s.copy())),
                   ("stab", lambda: F(s.get_stabilized_entry(n).energy))):
        try:
            o[nm] = fn()
        except Exception as e:
            o[nm] = f"{type(e).__name__}: {e}"
    return o


def flags(s):
    return [sorted(repr(c15.value(e)) + repr(P(e.data)) for e in s.entries), s.calculate_e_above_hulls]


def T(fn):
    try:
        return fn()
    except Exception as e:
        return f"{type(e).__name__}: {e}"


def ob_rxn(r):
    o = {"type": type(r).__name__, "comps": [repr(canon.comp_key(c)) for c in r.compositions], "coeffs": [F(c) for c in r.coefficients],
         "data": P(r.data), "errors": F(r.lowest_num_errors), "balanced": r.balanced, "identity": T(lambda: r.is_identity), "str": T(lambda: str(r)), "repr": T(lambda: repr(r)), "chemsys": r.chemical_system,
         "elements": sorted(map(str, r.elements)), "reactants": sorted(c.formula for c in r.reactants), "products": sorted(c.formula for c in r.products),
         "atoms": T(lambda: F(r.num_atoms)), "self": r == r, "rev": T(lambda: str(r.reverse())), "copy": T(lambda: r.copy() == r)}
    if hasattr(r, "entries"):
        o.update(entries=[repr(c15.value(e)) for e in r.entries], energy=F(r.energy), per_atom=T(lambda: F(r.energy_per_atom)), unc=T(lambda: F(r.energy_uncertainty)),
                 sep=str(r.is_separable if False else ""))
    if hasattr(r, "chempots"):
        o.update(mu=P({str(k): v for k, v in r.chempots.items()}), open=sorted(map(str, r.open_elems)), tot=r.total_chemical_system,
                 muk=sorted(type(k).__name__ for k in r.chempots), grand=[F(e.energy) for e in r.grand_entries])
    return o


def ob_rset(s):
    rs = list(s.get_rxns())
    o = {"rxns": [ob_rxn(r) for r in rs], "n": len(s), "entries": [repr(c15.value(e)) for e in s.entries], "open": str(s.open_elem), "mu": F(s.chempot),
         "fp": repr(canon.fp({k: np.asarray(v) for k, v in s.indices.items()})), "mud": P({str(k): v for k, v in (s.mu_dict or {}).items()})}
    if rs:
        ed = {e.composition.reduced_formula for e in rs[0].reactant_entries}
        o["by"] = [str(r) for r in s.get_rxns_by_reactants(sorted(ed))]
        o["prod"] = [str(r) for r in s.get_rxns_by_product(sorted(e.composition.reduced_formula for e in rs[0].product_entries)[0])]
        n = s.set_chempot(rs[0].entries[0].composition.elements[0], -0.3)
        o["chempot"] = [T(lambda r=r: F(r.energy_per_atom)) for r in n.get_rxns()]
        kernel.use(base.REF_SPEC)
        o["filter"] = sorted(repr(canon.rxn_key(r)) for r in s.filter_duplicates().get_rxns())
    return o


def ob_path(p):
    o = {"type": type(p).__name__, "rxns": [ob_rxn(r) for r in p.reactions], "costs": [F(c) for c in p.costs], "total": F(p.total_cost), "exp": p.is_experimental,
         "entries": sorted(repr(canon.entry_key(e)) for e in p.entries), "comps": sorted(c.formula for c in p.compositions),
         "self": p == p}
    if hasattr(p, "coefficients"):
        o.update(co=[F(c) for c in p.coefficients], bal=p.balanced, avg=F(p.average_cost), repr=repr(p))
    return o


def ob_pset(s):
    return {"paths": [ob_path(p) for p in s.paths], "n": len(s), "indices": P(list(s.indices)), "costs": P(list(s.costs)), "co": P(list(s.coefficients)),
            "rxns": [ob_rxn(r) for r in s.reaction_set.get_rxns()]}


def ob_cost(c, case):
    ents = gen.build_entries(case["chem"])
    rs = rx.build(case["rxns"], rx.by_u(case["chem"], ents))
    for i, r in enumerate(rs):
        r.data["c"] = i / 7
    return {"type": type(c).__name__, "repr": repr(c), "costs": [F(c.evaluate(r)) for r in rs], "params": list(c.params), "weights": P(c.weights), "t": getattr(c, "temp", None)}


def ob_enum(en, case, o):
    d = {"type": type(en).__name__, "set": P({k: v for k, v in vars(en).items() if not k.startswith("_") and k not in ("logger", "tqdm")})}
    st = o["set"]
    if o["run"] and st.get("max_num_constraints", 1) < 2 and st.get("remove_unbalanced", True) and st.get("remove_changed", True):
        from rxn_network.entries.entry_set import GibbsEntrySet

        r = base.Run(base.REF_SPEC, lambda: en.enumerate(GibbsEntrySet(gen.build_entries(case["chem"]))))
        d["run"] = sorted(repr(canon.rxn_key(x, energy=True)) + repr(P(x.data)) for x in r.value) if r.ok else r.why()
    return d


def ob_cpd(c, case):
    d = {"domains": sorted((f, P(np.round(sorted(map(tuple, np.round(v, 5))), 5))) for f, v in c.domains.items()), "els": sorted(map(str, c.elements)),
         "lims": P(np.asarray(c.lims)), "n": len(c.entries)}
    f = sorted(c.domains)
    d["dist"] = [round(float(c.shortest_domain_distance(x, y)), 5) for x in f[:3] for y in f[:3]]
    d["off"] = sorted(repr((canon.entry_key(e), round(float(c.get_offset(e)), 6))) for e in c.entries)
    return d


def ob_hull(h):
    return {"c": [h.c1.formula, h.c2.formula], "e": [h.e1.composition.reduced_formula, h.e2.composition.reduced_formula], "n": len(h.reactions), "ends": sorted(str(r) for r in h.endpoint_reactions),
            "rxns": sorted(json.dumps(ob_rxn(r), default=str) for r in h.reactions if not r.is_identity),
            "coords": sorted(P(h.coords)), "stable": sorted(str(r) for r in h.stable_reactions),
            "prim": sorted((str(r), round(float(h.get_primary_competition(r)), 6)) for r in h.reactions if not r.is_identity)}


def ob_net(n, case):
    from dst.props.c05 import Life

    lf = Life.__new__(Life)
    lf.nw = n
    return lf.state()


def ob_solver(s):
    return {"paths": ob_pset(s.pathways), "open": str(s.open_elem), "opent": type(s.open_elem).__name__, "mu": F(s.chempot), "chunk": s.chunk_size, "batch": s.batch_size,
            "cf": [type(s.cost_function).__name__, repr(s.cost_function), s.cost_function.temp],
            "entries": sorted(repr(c15.value(e)) for e in s.entries), "rxns": sorted(str(r) for r in s.reactions), "n": s.num_rxns if hasattr(s, "num_rxns") else None}


def ob_adj(x):
    return {"type": type(x).__name__, "value": F(x.value), "unc": F(x.uncertainty), "name": x.name, "d": P(x.as_dict()), "explain": x.explain}


def observe(case, o, x):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        k = o["k"]
        r = {"entry": ob_entry, "rxn": ob_rxn, "orxn": ob_rxn, "brxn": ob_rxn, "rset": ob_rset, "path": ob_path, "bpath": ob_path, "pset": ob_pset,
             "solver": ob_solver, "hull": ob_hull, "adj": ob_adj}.get(k)
        if r:
            r = r(x)
        elif k == "eset":
            r = ob_eset(x, o["a"])
        elif k == "enum":
            r = ob_enum(x, case, o)
        elif k == "cost":
            r = ob_cost(x, case)
        elif k == "cpd":
            r = ob_cpd(x, case)
        else:
            r = ob_net(x, case)
        return json.loads(json.dumps(r, default=str))


# ------------------------------------------------------------------ the crash
def save(x):
    from monty.json import MontyEncoder

    return json.dumps(x, cls=MontyEncoder)


def clone(d):
    return json.loads(json.dumps(d))


def restore(text, how):
    """(object, complaint)"""
    from importlib import import_module

    from monty.json import MontyDecoder

    d = json.loads(text)
    before = json.dumps(d)
    cls = getattr(import_module(d["@module"]), d["@class"])
    if how == "decoder":
        x = MontyDecoder().process_decoded(d)
    else:
        x = cls.from_dict(d)
        if how == "resave":
            x = MontyDecoder().process_decoded(json.loads(save(x)))
    if type(x) is not cls:
        return x, f"restored as {type(x).__name__}, not {cls.__name__}"
    if how == "twice":
        # the object now belongs to the caller; the decoded form does not
        x = cls.from_dict(d)
    try:
        after = json.dumps(d)
    except TypeError as e:
        return x, f"the decoded form was changed by restoring from it ({e})"
    if after != before:
        return x, "the decoded form was changed by restoring from it"
    return x, ""


def life(arg):
    out = []
    case = arg["case"]
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        kernel.use(base.REF_SPEC)
        for o, text in zip(case["obs"], arg["texts"]):
            if text is None:
                out.append(None)
                continue
            try:
                x, bad = restore(text, o["how"])
                ob = observe(case, o, x)
                again = observe(case, o, restore(text, "decoder")[0]) if o["how"] == "twice" else None
                out.append({"bad": bad, "ob": ob, "again": again})
            except Exception as e:
                out.append({"err": f"{type(e).__name__}: {str(e)[:300]} @ {base.where(e)}"})
    return out


def differ(a, b, path=""):
    if type(a) is not type(b):
        return f"{path}: {str(a)[:300]} | {str(b)[:300]}"
    if isinstance(a, dict):
        for k in a:
            if k not in b:
                return f"{path}/{k}: missing"
            d = differ(a[k], b[k], f"{path}/{k}")
            if d:
                return d
        return ""
    if isinstance(a, list):
        if len(a) != len(b):
            return f"{path}: {len(a)} items | {len(b)} items: {str(a)[:200]} | {str(b)[:200]}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = differ(x, y, f"{path}[{i}]")
            if d:
                return d
        return ""
    if isinstance(a, int) and not isinstance(a, bool) and abs(a - b) <= 1:
        return ""
    return "" if a == b else f"{path}: {str(a)[:400]} | {str(b)[:400]}"


def run(case):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return _run(case)


def _run(case):
    reborn.warm()
    res = base.Res()
    kernel.use(base.REF_SPEC)
    texts, want = [], []
    for o in case["obs"]:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            x = build(case, o)
        if x is None:
            texts.append(None)
            want.append(None)
            continue
        ob = observe(case, o, x) if o["use"] else None
        try:
            texts.append(save(x))
        except Exception as e:
            res.bad("save", f"{o['k']} ({type(x).__name__}): {type(e).__name__}: {str(e)[:300]} @ {base.where(e)}")
            return res
        after = observe(case, o, x)
        want.append(after)
        if ob is not None:
            res.nontrivial = True
            d = differ(ob, after)
            if d:
                res.bad("altered", f"{o['k']}: using and saving it changed it, before | after: {d}")
                return res
        elif o["k"] not in ("cost", "adj"):
            res.nontrivial = True
        res.probe(o["k"])
    if not any(texts):
        res.skipped += 1
        return res
    which = len(texts[0] or "") % 2
    res.fire("crash_restart")
    try:
        got = reborn.call(which, "dst.props.c19", "life", {"case": case, "texts": texts})
    except reborn.LifeError as e:
        res.bad("restore", f"{[o['k'] for o in case['obs']]}: {e}")
        return res
    res.execs += 1
    res.sigs.append(repr([(o["k"], o["how"], len(t or "")) for o, t in zip(case["obs"], texts)]))
    for o, w, g in zip(case["obs"], want, got):
        if g is None:
            continue
        n = f"{o['k']} restored with {o['how']}"
        if "err" in g:
            res.bad("restore", f"{n}: {g['err']}")
        elif g["bad"]:
            res.bad("mutated", f"{n}: {g['bad']}")
        else:
            d = differ(w, g["ob"]) or (g["again"] and differ(w, g["again"], "again"))
            if d:
                res.bad("differs", f"{n}, saved | restored: {d}")
        if res.violations:
            return res
    return res


def shrink(case):
    for i in range(len(case["obs"])):
        if len(case["obs"]) > 1:
            d = copy.deepcopy(case)
            del d["obs"][i]
            yield d
    for i, o in enumerate(case["obs"]):
        for k, v in (("how", "from_dict"), ("how", "decoder"), ("use", False)):
            if o[k] != v and not (k == "how" and o[k] == "decoder"):
                d = copy.deepcopy(case)
                d["obs"][i][k] = v
                yield d
    yield from base.shrink_common(case)
    for i in range(len(case["rxns"])):
        if len(case["rxns"]) > 1:
            d = copy.deepcopy(case)
            del d["rxns"][i]
            yield d
