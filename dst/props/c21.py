"""C21: a workflow's documents hold what its steps give when called directly."""
from __future__ import annotations

import copy
import json
import random
from collections import Counter

from dst import base, canon, enums, gen, net, ops, reborn
from dst.props import c09, c12

QUICK = 200
THOROUGH = 5000
RULE = ("A case is a workflow: the reaction-pathway flow (entries from a database or given; combinatorial and/or minimising enumerators; "
        "none to three chemical potentials of an open element; with or without balanced pathways) plus up to three competition jobs, or a chain of single "
        "jobs with settings of their own. The makers may have been used for another flow before. The jobs run in a seed-chosen order among those "
        "that are ready, each from its serialised form in a new process with another hash seed or from the job object at hand, on its own simulated "
        "cluster schedule with transparent faults; some attempts fail at a database write and are made again. Each document must hold the "
        "settings it was made with and what the package's functions give when called directly with these settings on the stored inputs: entries by a step "
        "by step evaluation, reactions by calling the enumerators, networks and pathways by the model of C07, scores by the definition of C09, balanced "
        "pathways by calling the solver. Non-trivial: at least two jobs finished and one had an input made by another.")
REAL = ["GetEntrySetMaker, ReactionEnumerationMaker, CalculateCompetitionMaker, NetworkMaker, PathwaySolverMaker, NetworkFlowMaker", "process_entries",
        "jobflow Flow, Job, JobStore, output references", "separate interpreters"]
STUB = ["database servers: in-process stores, carried between processes as text", "ray: simulator", "the launcher: jobs run one at a time in a seed-chosen order"]
ASSUME = ["the enumerators, the solver and GibbsEntrySet.from_computed_entries called directly are right (C01, C08, C16)", "ties as in C07"]


def make(rng, tier):
    kind = rng.choice(["flow", "flow", "flow", "chain", "chain", "entries"])
    chem = gen.chemistry(rng, n_elems=(2, 3), n_comp=(2, 5), interp=0.0, polymorphs=0.3, exp=0.15)
    for e in chem["ents"]:
        if "data" in e and rng.random() < 0.5:
            e.pop("data")
    els = gen.elems(chem)
    db = rng.random() < (1.0 if kind == "entries" else 0.35)
    if db:
        for e in chem["ents"]:
            if e["k"] == "g":
                e["d"] = [round(-rng.uniform(2, 6), 5), round(-rng.uniform(2, 6), 5), rng.choice(["g", "u", "ug"])]
    fs, cs = gen.comps(chem), gen.comps(chem, elements=False)
    oe = ("O" if "O" in els else els[0]) if rng.random() < 0.5 else None
    mus = [rng.choice([0.0, round(-rng.uniform(0, 2), 3)]) for _ in range(rng.choice([0, 1, 1, 2, 2, 3]))] if oe else []
    targets = rng.sample(cs, min(len(cs), rng.choice([1, 1, 1, 2, 3])))
    solve = None
    if rng.random() < 0.25:
        targets = targets[:1]
        pre = [gen.gas(el) for el in gen.elems({"ents": [{"c": targets[0]}]})]
        solve = {"max_num_combos": rng.choice([1, 2, 2, 3]), "find_intermediate_rxns": rng.random() < 0.5, "filter_interdependent": rng.random() < 0.5,
                 "use_minimize_enumerator": rng.random() < 0.3, "use_basic_enumerator": rng.random() < 0.8,
                 "intermediate_rxn_energy_cutoff": rng.choice([0.0, 0.0, 0.1, -0.1, 5.0])}
    else:
        pre = rng.sample(fs, min(len(fs), rng.choice([1, 2, 2, 3, 4])))
        if rng.random() < 0.4:
            pre = sorted({gen.gas(el) for f in targets for el in gen.elems({"ents": [{"c": f}]})})
    entry = {"temperature": chem["T"], "e_above_hull": rng.choice([0.0, 0.03, 0.1, 1.0]), "include_polymorphs": rng.random() < 0.4,
             "include_nist_data": rng.random() < 0.4, "calculate_e_above_hulls": rng.random() < 0.6}
    if rng.random() < 0.3:
        entry["filter_at_temperature"] = rng.choice([300, 900])
    if rng.random() < 0.4:
        entry["formulas_to_include"] = [rng.choice(cs)] + ([enums.novel(rng, chem)] if rng.random() < 0.3 else [])
    if rng.random() < 0.2:
        entry["custom"] = True
    basic = {"n": rng.choice([1, 2, 2]), "quiet": True, "chunk_size": rng.choice([3, 20, 2500])}
    mini = {"quiet": True}
    for kw in (basic, mini):
        if rng.random() < 0.2:
            kw["precursors"] = rng.sample(fs, min(len(fs), 2))
            kw["exclusive_precursors"] = rng.random() < 0.5
        if rng.random() < 0.15:
            kw["targets"] = [rng.choice(cs)]
    use = rng.choice([(True, False), (True, True), (False, True)]) if not mus else rng.choice([(True, True), (True, True), (False, True), (True, False)])
    cost = rng.choice([{"f": "soft"}, {"f": "soft", "t": 900}, {"f": "soft", "t": 1500}])
    c = {"kind": kind, "chem": chem, "db": db, "entry": entry, "open": oe, "mus": mus, "targets": targets, "pre": pre, "solve": solve, "use": list(use),
         "basic": basic, "mini": mini, "cost": cost, "k": rng.choice([None, 1, 2, 3, 5, 10]) if not solve else rng.choice([1, 3, 6]),
         "order": rng.randrange(10**6), "again": rng.choice(cs) if rng.random() < 0.3 else None,
         "launch": [{"where": rng.choice(["here", "life", "life"]), "sched": gen.schedule(rng),
                     "ray": gen.faults(rng, gen.TRANSPARENT, (1, 2)) if rng.random() < 0.4 else [],
                     "fail": {"on": "update", "how": rng.choice(["error", "crash", "lost_ack", "torn"]), "at": rng.choice([1, 1, 2])} if rng.random() < 0.15 else None}
                    for _ in range(5)],
         "compete": [{"open": [oe, rng.choice([0.0, round(-rng.uniform(0, 1), 3)])] if oe and rng.random() < 0.5 else None, "chunk": rng.choice([1, 3, 100]),
                      "target": rng.choice(targets), "cpd": rng.random() < 0.3, "comp": rng.random() < 0.85} for _ in range(rng.choice([0, 0, 1, 2]))]}
    if kind == "chain":
        c["chain"] = {"enums": [enums.gen_enum(rng, chem, p_novel=0.0, p_prec=0.2, p_targ=0.3) for _ in range(rng.choice([1, 1, 2, 3]))],
                      "split": rng.random() < 0.5, "net_open": [oe, rng.choice([0.0, round(-rng.uniform(0, 1), 3)])] if oe and rng.random() < 0.6 else None}
        for e in c["chain"]["enums"]:
            if e["kind"] in ("basic", "open"):
                e["n"] = min(e["n"], 2)
                e["chunk_size"] = max(e["chunk_size"], 7)
    return c


# ------------------------------------------------------------------ the workflow
def rf(f):
    from pymatgen.core.composition import Composition

    return Composition(f).reduced_formula


def flow_elements(case):
    from pymatgen.core import Composition

    return sorted({e.symbol for f in case["pre"] + case["targets"] for e in Composition(f).elements})


def build(case):
    """[(job, description of what it must give, uuids it waits for)]"""
    from jobflow import Flow
    from rxn_network.entries.entry_set import GibbsEntrySet
    from rxn_network.flows.core import NetworkFlowMaker
    from rxn_network.jobs.core import CalculateCompetitionMaker, GetEntrySetMaker, NetworkMaker, PathwaySolverMaker, ReactionEnumerationMaker

    kw = copy.deepcopy(case["entry"])
    if kw.pop("custom", False):
        kw["custom_entries"] = c12.custom_entries(case)
    gm = GetEntrySetMaker(entry_db_name="mats", **kw)
    given = None if case["db"] else GibbsEntrySet(gen.build_entries(case["chem"]), calculate_e_above_hulls=kw["calculate_e_above_hulls"])
    chemsys = "-".join(gen.elems(case["chem"]))
    cf = net.cost_function(case["cost"])
    oe = case["open"]
    want = {}  # uuid -> description
    jobs = []
    if case["kind"] == "flow":
        sm = PathwaySolverMaker(precursors=list(case["pre"]), targets=list(case["targets"]), cost_function=cf, **case["solve"]) if case["solve"] else None
        nm = NetworkMaker(precursors=list(case["pre"]), targets=list(case["targets"]), calculate_pathways=case["k"], cost_function=cf)
        fm = NetworkFlowMaker(get_entry_set_maker=gm, network_maker=nm, solver_maker=sm, open_elem=oe, chempots=list(case["mus"]) or None,
                              use_basic_enumerators=case["use"][0], use_minimize_enumerators=case["use"][1],
                              basic_enumerator_kwargs=copy.deepcopy(case["basic"]), minimize_enumerator_kwargs=copy.deepcopy(case["mini"]))
        if case["again"]:
            fm.make([case["again"]], [case["again"]], entries=given)
        jobs = [j for j, _ in fm.make(list(case["pre"]), list(case["targets"]), entries=given).iterflow()]
        chains = [None] + (list(case["mus"]) if case["use"][1] and oe else [])
        branch = {}
        for j in jobs:
            m = type(j.maker).__name__
            if m == "GetEntrySetMaker":
                inc = list(case["entry"].get("formulas_to_include", [])) + [rf(f) for f in case["pre"] + case["targets"]]
                want[j.uuid] = {"is": "entries", "chemsys": flow_elements(case), "include": inc}
            else:
                branch.setdefault(m, []).append(j)
        if len(branch.get("ReactionEnumerationMaker", [])) != len(chains) or len(branch.get("NetworkMaker", [])) != len(chains) or \
                len(branch.get("PathwaySolverMaker", [])) != len(chains) * bool(sm):
            return [], f"the flow has {({k: len(v) for k, v in branch.items()})} jobs for {len(chains)} conditions", want
        left = list(chains)
        base_enum = None
        for j in branch["ReactionEnumerationMaker"]:
            es = j.function_kwargs.get("enumerators") or j.function_args[0]
            mu = next((float(e.mu) for e in es if type(e).__name__ == "MinimizeGrandPotentialEnumerator"), None)
            if mu not in left:
                return [], f"an enumeration at {mu}, conditions {chains}", want
            left.remove(mu)
            ent = next((u for u, w in want.items() if w["is"] == "entries"), None)
            want[j.uuid] = {"is": "enum", "mu": mu, "entries": ent}
            if mu is None:
                base_enum = j.uuid
        free = [(u, w["mu"]) for u, w in want.items() if w["is"] == "enum"]
        for j in branch["NetworkMaker"]:
            mu = float(j.maker.chempot) if j.maker.open_elem else None
            hit = [u for u, x in free if x == mu]
            if not hit:
                return [], f"a network at {mu}, conditions {chains}", want
            ref = [u for u in hit if u in j.input_uuids] or hit
            free = [(u, x) for u, x in free if u != ref[0]]
            want[j.uuid] = {"is": "net", "open": None if mu is None else [oe, mu], "from": [base_enum] + ([ref[0]] if mu is not None else [])}
        for j in branch.get("PathwaySolverMaker", []):
            mu = float(j.maker.chempot) if j.maker.open_elem else None
            nets = [u for u, w in want.items() if w["is"] == "net" and (w["open"] or [None, None])[1] == mu and not w.get("solved")]
            ref = [u for u in nets if u in j.input_uuids] or nets
            if not ref:
                return [], f"balanced pathways at {mu}, conditions {chains}", want
            want[ref[0]]["solved"] = True
            want[j.uuid] = {"is": "solve", "open": None if mu is None else [oe, mu], "from": ref[0]}
        enum_jobs = [j for j in branch["ReactionEnumerationMaker"]]
        ent_src = next((j for j in jobs if want[j.uuid]["is"] == "entries"), None)
        es = ent_src.output.entries if ent_src else given
    else:
        es = given
        if es is None:
            if case["again"]:
                gm.make(rf(case["again"]))
            j = gm.make(chemsys)
            want[j.uuid] = {"is": "entries", "chemsys": chemsys.split("-"), "include": list(case["entry"].get("formulas_to_include", []))}
            jobs.append(j)
            es = j.output.entries
        ent = jobs[0].uuid if jobs else None
        enum_jobs = []
        if case["kind"] == "chain":
            ch = case["chain"]
            groups = [[e] for e in ch["enums"]] if ch["split"] else [ch["enums"]]
            rm = ReactionEnumerationMaker()
            for g in groups:
                j = rm.make([enums.make_enum(e) for e in g], es)
                want[j.uuid] = {"is": "enum", "enums": g, "entries": ent}
                enum_jobs.append(j)
            o = ch["net_open"]
            nm = NetworkMaker(precursors=list(case["pre"]), targets=list(case["targets"]), calculate_pathways=case["k"], cost_function=cf,
                              **({"open_elem": o[0], "chempot": o[1]} if o else {}))
            n = nm.make([j.output.rxns for j in enum_jobs])
            want[n.uuid] = {"is": "net", "open": o, "from": [j.uuid for j in enum_jobs]}
            jobs += [*enum_jobs, n]
            if case["solve"]:
                sm = PathwaySolverMaker(precursors=list(case["pre"]), targets=list(case["targets"]), cost_function=cf, **case["solve"],
                                        **({"open_elem": o[0], "chempot": o[1]} if o else {}))
                s = sm.make(n.output.paths, n.output.network.entries)
                want[s.uuid] = {"is": "solve", "open": o, "from": n.uuid}
                jobs.append(s)
    extra = []
    if enum_jobs:
        ent = next((u for u, w in want.items() if w["is"] == "entries"), None)
        for cp in case["compete"]:
            o = cp["open"]
            m = CalculateCompetitionMaker(calculate_competition=cp["comp"], calculate_chempot_distances=cp["cpd"], chunk_size=cp["chunk"],
                                          **({"open_elem": o[0], "chempot": o[1]} if o else {}))
            j = m.make([x.output.rxns for x in enum_jobs], es, cp["target"])
            want[j.uuid] = {"is": "compete", "from": [x.uuid for x in enum_jobs], "entries": ent, **cp}
            extra.append(j)
    return jobs + extra, None, want


def order(jobs, seed):
    """A seed-chosen order in which every job comes after those it takes its inputs from."""
    rng = random.Random(f"order{seed}")
    ids = {j.uuid for j in jobs}
    done, out, left = set(), [], list(jobs)
    while left:
        ready = [j for j in left if not (set(j.input_uuids) & ids) - done]
        j = rng.choice(ready)
        left.remove(j)
        done.add(j.uuid)
        out.append(j)
    return out


def load(dump, uuid):
    from monty.json import MontyDecoder

    js, _ = c12.stores(dump, 3)
    with c12.settings(js):
        d = js.query_one({"uuid": uuid}, load=True)
        return None if d is None else MontyDecoder().process_decoded(d["output"])


# ------------------------------------------------------------------ what each must hold
def rk(r):
    return canon.rxn_key(r, energy=True)


def ekey(e):
    h = e.data.get("e_above_hull")
    return (*canon.entry_key(e), None if h is None else round(float(h), 6))


def want_entries(case, w, start):
    """Key of every entry the set must hold -> required; and those on the edge of the cutoff."""
    from pymatgen.analysis.phase_diagram import PhaseDiagram
    from rxn_network.entries.entry_set import GibbsEntrySet
    from rxn_network.entries.utils import get_all_entries_in_chemsys_from_entry_db

    _, s = c12.stores(start, 1)
    kw = case["entry"]
    comp = get_all_entries_in_chemsys_from_entry_db(s["mats"], "-".join(w["chemsys"]))
    if kw.get("custom"):
        comp = [*comp, *c12.custom_entries(case)]
    t0 = kw.get("filter_at_temperature") or kw["temperature"]
    es = list(GibbsEntrySet.from_computed_entries(comp, t0, include_nist_data=kw["include_nist_data"]))

    def lowest(entries, f):
        m = [e for e in entries if e.composition.reduced_formula == f]
        return min(m, key=lambda e: (e.energy_per_atom, str(e.entry_id))) if m else None

    inc = []
    for f in dict.fromkeys(map(rf, w["include"])):
        inc.append(lowest(es, f) or enums.interpolated(f, es))
    pd = PhaseDiagram(es)
    sure, edge = [], []
    for e in es:
        h = pd.get_e_above_hull(e)
        if abs(h - kw["e_above_hull"]) < 1e-7 and kw["e_above_hull"] > 0 or (kw["e_above_hull"] == 0 and 0 < h < 1e-7):
            edge.append(e)
        elif h <= kw["e_above_hull"]:
            sure.append(e)
    if edge:
        return None
    if not kw["include_polymorphs"]:
        sure = [e for e in sure if lowest(sure, e.composition.reduced_formula) is e]
    out = list({id(e): e for e in sure + inc}.values())
    if kw["temperature"] != t0:
        out = [e.get_new_temperature(kw["temperature"]) for e in out]
    hull = None
    if kw["calculate_e_above_hulls"]:
        p2 = PhaseDiagram(out)
        hull = {canon.entry_key(e): float(p2.get_e_above_hull(e)) for e in out}
    return {canon.entry_key(e) for e in out}, hull


def judge_entries(case, w, doc, start, res, label):
    kw = case["entry"]
    want = want_entries(case, w, start)
    if want is None:
        res.probe("edge_of_cutoff")
        return
    want, hull = want
    got = Counter(canon.entry_key(e) for e in doc.entries)
    if got != Counter(dict.fromkeys(want, 1)):
        res.bad("entries", f"{label}: {canon.diff(got, Counter(dict.fromkeys(want, 1)))}"[:900])
    elif hull is not None:
        for e in doc.entries:
            h = e.data.get("e_above_hull")
            if h is None or abs(h - hull[canon.entry_key(e)]) > 1e-6:
                res.bad("hull", f"{label}: {canon.entry_key(e)} carries an energy above hull of {h}, it is {hull[canon.entry_key(e)]}")
                return
    if abs(doc.e_above_hull - kw["e_above_hull"]) > 1e-12 or doc.include_polymorphs != kw["include_polymorphs"]:
        res.bad("settings", f"{label}: records {doc.e_above_hull} {doc.include_polymorphs}, made with {kw}")
    inc = {rf(f) for f in doc.formulas_to_include or []}
    if inc != {rf(f) for f in w["include"]}:
        res.bad("settings", f"{label}: formulas included {sorted(inc)}, asked for {sorted(set(map(rf, w['include'])))}")


def expected_enums(case, w):
    from rxn_network.enumerators.basic import BasicEnumerator, BasicOpenEnumerator
    from rxn_network.enumerators.minimize import MinimizeGibbsEnumerator, MinimizeGrandPotentialEnumerator

    if "enums" in w:
        return [enums.make_enum(e) for e in w["enums"]]
    if w["mu"] is not None:
        return [MinimizeGrandPotentialEnumerator(open_elem=case["open"], mu=w["mu"], **copy.deepcopy(case["mini"]))]
    out = []
    if case["use"][0]:
        out.append(BasicEnumerator(**copy.deepcopy(case["basic"])))
        if case["open"]:
            out.append(BasicOpenEnumerator(open_phases=[gen.gas(case["open"])], **copy.deepcopy(case["basic"])))
    if case["use"][1]:
        out.append(MinimizeGibbsEnumerator(**copy.deepcopy(case["mini"])))
    return out


def vals(e):
    from dst.props import c19

    return [type(e).__name__, c19.P({a: b for a, b in vars(e).items() if not a.startswith("_") and a not in ("logger", "tqdm")})]


def judge_enum(case, w, doc, entries, direct, res, label):
    en = expected_enums(case, w)
    a, b = sorted(repr(vals(e)) for e in doc.enumerators or []), sorted(repr(vals(e)) for e in en)
    if a != b:
        res.bad("settings", f"{label}: records the enumerators {a}, used {b}"[:900])
    got, want = Counter(map(rk, doc.rxns)), Counter(map(rk, direct))
    if got != want:
        res.bad("reactions", f"{label}: {canon.diff(got, want)}"[:900])
    els = {str(x) for e in entries for x in e.composition.elements}
    ts = sorted({t for e in en for t in e.targets})
    tel = {x for t in ts for x in gen.elems({"ents": [{"c": t}]})}
    add = sorted(els - tel) if ts else None
    have = {"chemsys": doc.chemsys, "elements": sorted(map(str, doc.elements or [])), "targets": sorted(map(rf, doc.targets or [])),
            "added": None if doc.added_elements is None else sorted(map(str, doc.added_elements)), "added_chemsys": doc.added_chemsys}
    must = {"chemsys": "-".join(sorted(els)), "elements": sorted(els), "targets": sorted(map(rf, ts)), "added": add,
            "added_chemsys": None if add is None else "-".join(add)}
    if have != must:
        res.bad("metadata", f"{label}: {have}, want {must}")


def conditions(w, sets):
    """The open element and potential at which the combined sets are evaluated: the job's own; without one, a network takes those all its
    reactions share, a competition those of the first set."""
    if w.get("open"):
        return w["open"]
    if w["is"] == "compete":
        return [str(sets[0].open_elem), float(sets[0].chempot)] if sets[0].open_elem else None
    at = {(None if not s.open_elem else (str(s.open_elem), float(s.chempot))) for s in sets if len(s)}
    return list(next(iter(at))) if len(at) == 1 and None not in at else None


def evaluated(rxns, o):
    from pymatgen.core.composition import Element
    from rxn_network.reactions.computed import ComputedReaction
    from rxn_network.reactions.open import OpenComputedReaction

    if o:
        return [OpenComputedReaction(r.entries, r.coefficients, {Element(o[0]): o[1]}, data=dict(r.data or {})) for r in rxns]
    return [ComputedReaction(r.entries, r.coefficients, data=dict(r.data or {})) for r in rxns]


def ground(entries, f):
    m = [e for e in entries if e.composition.reduced_formula == rf(f)]
    return min(m, key=lambda e: (e.energy_per_atom, str(e.entry_id))) if m else None


def judge_net(case, w, doc, sets, res, label):
    rxns = evaluated([r for s in sets for r in s], conditions(w, sets))
    got, want = Counter(map(rk, doc.network.rxns)), Counter(dict.fromkeys(map(rk, rxns), 1))
    if got != want:
        res.bad("reactions", f"{label}: the network's reactions: {canon.diff(got, want)}"[:900])
        return
    ents = {canon.entry_key(e): e for r in rxns for e in r.entries}.values()
    pre = [ground(ents, f) for f in case["pre"]]
    ts = [ground(ents, f) for f in case["targets"]]
    have = {canon.entry_key(e) for e in doc.network.precursors or []}
    if have != {canon.entry_key(e) for e in pre}:
        res.bad("config", f"{label}: network precursors {have}")
        return
    t = ts[-1] if case["k"] else ts[0]
    if doc.network.target is None or canon.entry_key(doc.network.target) != canon.entry_key(t):
        res.bad("config", f"{label}: network target {doc.network.target}, want {canon.entry_key(t)}")
    if [rf(f) for f in doc.precursors or []] != [rf(f) for f in case["pre"]] or [rf(f) for f in doc.targets or []] != [rf(f) for f in case["targets"]] or doc.k != case["k"]:
        res.bad("settings", f"{label}: records {doc.precursors} {doc.targets} {doc.k}")
    if not case["k"]:
        if doc.paths is not None:
            res.bad("paths", f"{label}: pathways found, though none were asked for")
        return
    model = net.Model(case, rxns)
    msg = net.check_call(case, model, doc.paths.paths, [canon.entry_key(e) for e in pre], [canon.entry_key(e) for e in ts], case["k"])
    if msg is None:
        res.probe("undecided")
    elif msg:
        res.bad("paths", f"{label}: {msg}")
    else:
        res.probe("paths", len(doc.paths.paths))


def net_error(case, w, sets):
    """Whether building the network directly is refused."""
    rxns = [r for s in sets for r in s]
    if not rxns:
        return "no reactions"
    ents = [e for r in rxns for e in r.entries]
    miss = [f for f in case["pre"] + case["targets"] if ground(ents, f) is None]
    return f"{miss} not in the network" if miss else None


def direct_solve(case, w, doc_net):
    """The solver called directly: (net reaction, pathways)"""
    from pymatgen.core.composition import Element
    from rxn_network.core import Composition
    from rxn_network.pathways.solver import PathwaySolver
    from rxn_network.reactions.computed import ComputedReaction
    from rxn_network.reactions.open import OpenComputedReaction

    entries = doc_net.network.entries
    pe, te = [ground(entries, f) for f in case["pre"]], [ground(entries, f) for f in case["targets"]]
    o = w["open"]
    if o:
        nr = OpenComputedReaction.balance(pe, te, {Element(o[0]): o[1]})
    else:
        nr = ComputedReaction.balance(pe, te)
    ps = PathwaySolver(pathways=doc_net.paths, entries=entries, cost_function=net.cost_function(case["cost"]), **({"open_elem": o[0], "chempot": o[1]} if o else {}))
    kw = case["solve"]
    return nr, ps.solve(net_rxn=nr, **kw)


def pkey(p):
    return (tuple(sorted((repr(canon.rxn_key(r, energy=True)), round(float(m) * float(abs(r.coefficients).max()), 4), round(float(c), 5))
                         for r, m, c in zip(p.reactions, p.coefficients, p.costs))))


def judge_solve(case, w, doc, direct, res, label):
    nr, paths = direct
    if canon.rxn_key(doc.net_rxn, energy=True) != canon.rxn_key(nr, energy=True):
        res.bad("net-reaction", f"{label}: net reaction {doc.net_rxn} ({doc.net_rxn.energy_per_atom}), want {nr} ({nr.energy_per_atom})")
        return
    s = max(abs(nr.coefficients)) / max(abs(doc.net_rxn.coefficients))

    def key(p, f=1.0):
        return tuple((a, round(b * f, 3), c) for a, b, c in pkey(p))

    got, want = Counter(key(p, s) for p in doc.balanced_paths.paths), Counter(key(p) for p in paths.paths)
    if got != want:
        res.bad("balanced", f"{label}: {sum((got - want).values())} pathways too many, {sum((want - got).values())} missing: {list((got - want) or (want - got))[:1]}"[:900])
    kw = case["solve"]
    for k, v in kw.items():
        if getattr(doc, k) != v:
            res.bad("settings", f"{label}: records {k}={getattr(doc, k)}, made with {v}")
    if [rf(f) for f in doc.precursors] != [rf(f) for f in case["pre"]] or [rf(f) for f in doc.targets] != [rf(f) for f in case["targets"]]:
        res.bad("settings", f"{label}: records {doc.precursors} {doc.targets}")
    o = w["open"] or [None, None]
    if (str(doc.solver.open_elem) if doc.solver.open_elem else None) != o[0] or (o[0] and abs(float(doc.solver.chempot) - o[1]) > 1e-9):
        res.bad("settings", f"{label}: solver at {doc.solver.open_elem} {doc.solver.chempot}, made at {o}")
    res.probe("balanced", len(paths.paths))


def judge_compete(case, w, doc, sets, entries, ref, res, label):
    t = rf(w["target"])
    o = w["open"] or [None, 0.0]
    have = (doc.target_formula, str(doc.open_elem) if doc.open_elem else None, doc.chempot, doc.calculate_competition, doc.calculate_chempot_distances)
    if have != (t, o[0], o[1], w["comp"], w["cpd"]):
        res.bad("settings", f"{label}: records {have}, made with {(t, *o, w['comp'], w['cpd'])}")
    els = {str(x) for e in entries for x in e.composition.elements}
    add = sorted(els - set(gen.elems({"ents": [{"c": w["target"]}]})))
    if sorted(map(str, doc.added_elements)) != add or doc.added_chemsys != "-".join(add):
        res.bad("metadata", f"{label}: added elements {doc.added_elements} {doc.added_chemsys}, want {add}")
    if w["cpd"]:
        for r in doc.rxns:
            if r.data.get("chempot_distance") is None:
                res.bad("no-score", f"{label}: {r} has no distance")
                return
    if not w["comp"]:
        prods = [r for r in evaluated([r for s in sets for r in s], conditions(w, sets))
                 if t in {e.composition.reduced_formula for e, c in zip(r.entries, r.coefficients) if c > 1e-8}]
        got, want = Counter(map(rk, doc.rxns)), Counter(map(rk, prods))
        if set(got) != set(want) or any(got[k] > want[k] for k in got):
            res.bad("reactions", f"{label}: {canon.diff(got, want)}"[:900])
        return
    c09.judge(ref, list(doc.rxns), label, res)


# ------------------------------------------------------------------ running
def run(case):
    from monty.json import MontyEncoder

    reborn.warm()
    res = base.Res()
    js, s = c12.stores({"mats": c12.materials(case)}, case["order"])
    start = c12.dumped(s)
    with c12.settings(js):
        try:
            jobs, msg, want = build(case)
        except ValueError:
            res.skipped += 1
            return res
        texts = {j.uuid: json.dumps(j, cls=MontyEncoder) for j in jobs}
    if msg:
        res.bad("jobs", msg)
        return res
    dump = start
    docs, failed = {}, set()
    for i, j in enumerate(order(jobs, case["order"])):
        w = want[j.uuid]
        if set(j.input_uuids) & failed or any(u in failed for u in ([w["from"]] if isinstance(w.get("from"), str) else w.get("from", []))):
            failed.add(j.uuid)
            continue
        ln = case["launch"][i % len(case["launch"])]
        label = f"job {i} ({w['is']}{'' if not (w.get('open') or w.get('mu')) else ' ' + str(w.get('open') or w['mu'])}, {ln['where']})"
        tries = [ln["fail"], None] if ln["fail"] else [None]
        here = ln["where"] == "here" or w["is"] == "solve"
        for n, f in enumerate(tries):
            arg = {"dump": dump, "seed": case["order"] + n, "sched": ln["sched"], "job": texts[j.uuid]}
            if f:
                arg["fault"] = {**f, "store": "blobs" if f["at"] == 1 else "docs"}
                arg["fault"]["at"] = 1
            elif ln["ray"]:
                arg["fault"] = {"store": "ray", "faults": gen.resolve(ln["ray"], 4, 6)}
            if here:
                r = c12.attempt(arg, j if ln["where"] == "here" else None)
            else:
                try:
                    r = reborn.call(case["order"] + i + n, "dst.props.c12", "attempt", arg)
                    res.fire("restart")
                except reborn.LifeError as e:
                    res.bad("crash", f"{label}: {e}")
                    return res
            dump = r["dump"]
            res.execs += 1
            res.tasks += r["tasks"]
            res.sigs.append(r["sig"] + w["is"])
            for x in r["fired"]:
                res.fire(x)
            for x, m in r["simfired"].items():
                res.fire(x, m)
            if r["hang"]:
                res.bad("hang", f"{label}: {r['hang']}")
                return res
        refused, direct = None, None
        entries = None
        ins = [w["from"]] if isinstance(w.get("from"), str) else w.get("from", [])
        ref = None
        try:
            if w["is"] in ("enum", "compete"):
                from rxn_network.entries.entry_set import GibbsEntrySet

                entries = docs[w["entries"]].entries if w.get("entries") else GibbsEntrySet(gen.build_entries(case["chem"]))
            if w["is"] == "enum":
                from rxn_network.enumerators.utils import run_enumerators

                x = base.Run(base.REF_SPEC, lambda: run_enumerators(expected_enums(case, w), entries))
                refused, direct = (None if x.ok else x.why()), x.value
            elif w["is"] == "net":
                refused = net_error(case, w, [docs[u].rxns for u in ins])
            elif w["is"] == "solve":
                if docs[ins[0]].paths is None:
                    refused = "no pathways"
                else:
                    x = base.Run(base.REF_SPEC, lambda: direct_solve(case, w, docs[ins[0]]))
                    refused, direct = (None if x.ok else x.why()), x.value
            elif w["is"] == "compete" and w["comp"]:
                sets = [docs[u].rxns for u in ins]
                o = conditions(w, sets)
                try:
                    # the competitors of a job may consume the open phase only where the job itself has one
                    ref = c09.reference({"open": w["open"]}, [evaluated([r for s in sets for r in s], o)], w["target"])
                    if not ref:
                        refused = "no reactions to the target"
                except Exception as e:
                    refused = base.describe(e)
        except Exception as e:
            refused = base.describe(e)
        if r["status"] != "ok":
            if refused is None and w["is"] in ("entries", "compete") and (w["is"] == "entries" or w["cpd"] or not w["comp"]):
                res.probe("refused_unjudged")
            elif refused is None:
                res.bad("failed", f"{label}: {r.get('err')}, called directly it works")
                return res
            res.probe("refused_" + w["is"])
            failed.add(j.uuid)
            continue
        if refused is not None:
            if w["is"] == "net" and refused != "no reactions":
                res.bad("accepted", f"{label}: done, though {refused}")
                return res
            res.probe("only_direct_refused")
            failed.add(j.uuid)
            continue
        if r.get("unrecorded"):
            res.bad("settings", f"{label}: {r['unrecorded']}")
            return res
        doc = load(dump, j.uuid)
        if doc is None:
            res.bad("missing", f"{label}: done, but there is no document")
            return res
        docs[j.uuid] = doc
        res.probe("judged_" + w["is"] + ("_open" if w.get("open") or w.get("mu") is not None else ""))
        if ins and len(docs) > 1:
            res.nontrivial = True
        if w["is"] == "entries":
            judge_entries(case, w, doc, start, res, label)
            res.nontrivial = True
        elif w["is"] == "enum":
            judge_enum(case, w, doc, entries, direct, res, label)
        elif w["is"] == "net":
            judge_net(case, w, doc, [docs[u].rxns for u in ins], res, label)
        elif w["is"] == "solve":
            judge_solve(case, w, doc, direct, res, label)
        else:
            judge_compete(case, w, doc, [docs[u].rxns for u in ins], entries, ref, res, label)
        if res.violations:
            return res
    return res


def shrink(case):
    for i in range(len(case["compete"])):
        c = copy.deepcopy(case)
        del c["compete"][i]
        yield c
    for i in range(len(case["mus"])):
        c = copy.deepcopy(case)
        del c["mus"][i]
        yield c
    for k in ("solve", "again"):
        if case[k]:
            yield {**copy.deepcopy(case), k: None}
    for i, ln in enumerate(case["launch"]):
        for k, v in (("fail", None), ("ray", []), ("where", "here")):
            if ln[k] != v:
                c = copy.deepcopy(case)
                c["launch"][i][k] = v
                yield c
    if len(case["targets"]) > 1:
        yield {**copy.deepcopy(case), "targets": case["targets"][:1]}
    for c in base.shrink_common(case):
        if all(e["k"] != "g" or not c["db"] or "d" in e for e in c["chem"]["ents"]) and all(t in gen.comps(c["chem"], elements=False) for t in c["targets"]):
            yield c
