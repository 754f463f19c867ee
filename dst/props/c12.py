"""C12: a stored job document is complete and reloadable, or the job is not done."""
from __future__ import annotations

import contextlib
import copy
import io
import json
import warnings

from dst import base, canon, enums, gen, kernel, ops, reborn

QUICK = 240
THOROUGH = 5000
RULE = ("A case is a workflow of 1-5 jobs (entry set from an entry database, enumeration, competition or chemical potential distances, "
        "network and basic pathways, balanced pathways; the real network flow or a chain of the real makers), each job executed from "
        "its serialised form in a new process with another hash seed (or again in the same process from the same job object), on "
        "databases of which only the stored content survives. In 0-2 attempts per job a database write or read fails, is cut "
        "short, loses its acknowledgement, or the process dies before or after it, or a task of the cluster fails; then the job is "
        "run again. After every attempt another process loads the document. Non-trivial: a fault fired and the job was run again.")
REAL = ["GetEntrySetMaker, ReactionEnumerationMaker, CalculateCompetitionMaker, NetworkMaker, PathwaySolverMaker, NetworkFlowMaker", "task documents",
        "jobflow Job and JobStore, mongomock query language, monty decoding", "separate interpreters"]
STUB = ["database servers: in-process stores with faults, carried between processes as text", "ray: simulator", "process crash: abandons everything but the stores"]
ASSUME = ["jobflow writes the document before the large objects it refers to; a crash in between leaves a document that cannot be loaded, which is "
          "accepted (library behaviour); one that loads with missing or different content is not"]
WRITE = ["error", "error", "crash", "lost_ack", "crash_after", "torn"]


def make(rng, tier):
    kind = rng.choice(["net", "net", "net", "compete", "compete", "entries", "enum"])
    chem = gen.chemistry(rng, n_elems=(2, 3), n_comp=(2, 3) if kind == "compete" else (2, 5), interp=0.0, polymorphs=0.25, exp=0.15)
    for e in chem["ents"]:
        if "data" in e and rng.random() < 0.5:
            e.pop("data")
    els = gen.elems(chem)
    db = rng.random() < (1.0 if kind == "entries" else 0.35)
    oe = ("O" if "O" in els else els[0]) if rng.random() < 0.4 else None
    fs = gen.comps(chem, elements=False)
    target = rng.choice(fs)
    c = {"chem": chem, "kind": kind, "db": db, "open": [oe, round(-rng.uniform(0, 1), 3)] if oe else None, "target": target,
         "order": rng.randrange(10**6), "sched": gen.schedule(rng),
         "entry": {"temperature": chem["T"], "e_above_hull": rng.choice([0.03, 0.1, 1.0]), "include_polymorphs": rng.random() < 0.4,
                   "include_nist_data": rng.random() < 0.3, "calculate_e_above_hulls": rng.random() < 0.6}}
    if rng.random() < 0.3:
        c["entry"]["filter_at_temperature"] = rng.choice([300, 900])
    if rng.random() < 0.3:
        c["entry"]["formulas_to_include"] = [rng.choice(fs)]
    if rng.random() < 0.2:
        c["entry"]["custom"] = True
    if db:
        for e in chem["ents"]:
            if e["k"] == "g":
                e["d"] = [round(-rng.uniform(2, 6), 5), round(-rng.uniform(2, 6), 5), rng.choice(["g", "u", "ug"])]
    c["enums"] = [enums.gen_enum(rng, chem, p_novel=0.0, p_prec=0.2, p_targ=0.3) for _ in range(rng.choice([1, 1, 2]))]
    for e in c["enums"]:
        if e["kind"] in ("basic", "open"):
            e["n"] = min(e["n"], 2)
            e["chunk_size"] = max(e["chunk_size"], 7)
    if kind == "compete" and rng.random() < 0.8:
        c["enums"] = [{"kind": "basic", "n": 2, "chunk_size": 2500}] + ([{"kind": "open", "n": 1, "chunk_size": 2500, "open_phases": [gen.gas(oe)]}] if oe else [])
    c["flags"] = {"calculate_competition": rng.random() < 0.75, "calculate_chempot_distances": rng.random() < 0.3, "chunk_size": rng.choice([1, 2, 5, 100])}
    c["k"] = rng.choice([1, 2, 4])
    c["solve"] = {"max_num_combos": rng.choice([1, 2, 2]), "find_intermediate_rxns": rng.random() < 0.5, "filter_interdependent": rng.random() < 0.5,
                  "use_minimize_enumerator": rng.random() < 0.3} if kind == "net" and rng.random() < 0.35 else None
    c["flow"] = {"basic": rng.random() < 0.8, "mini": rng.random() < 0.4}
    if not c["flow"]["basic"]:
        c["flow"]["mini"] = True
    c["pre"] = rng.random() < 0.7  # precursors other than the elements
    att = []
    for _ in range(6):
        a = []
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            x = rng.random()
            if x < 0.55:
                f = {"store": rng.choice(["docs", "blobs", "blobs"]), "on": "update", "how": rng.choice(WRITE), "u": rng.random()}
            elif x < 0.8:
                f = {"store": rng.choice(["docs", "blobs", "mats"]), "on": rng.choice(["query", "doc"]), "how": rng.choice(["error", "crash"]), "u": rng.random()}
            else:
                f = {"store": "ray", "faults": gen.faults(rng, gen.FATAL + gen.TRANSPARENT, (1, 2))}
            f["where"] = rng.choice(["here", "life", "life"])
            a.append(f)
        att.append({"faults": a, "where": rng.choice(["here", "life", "life"])})
    c["att"] = att
    return c


# ------------------------------------------------------------------ the databases
BLOBS = ["entries", "rxns", "network", "paths"]


def stores(dump, seed):
    from jobflow import JobStore

    from dst.stores import SimStore

    s = {n: SimStore(collection_name=n, seed=seed + i) for i, n in enumerate(["docs", "mats", *BLOBS])}
    for n, x in s.items():
        x.load(dump.get(n, []))
    js = JobStore(s["docs"], additional_stores={n: s[n] for n in [*BLOBS, "mats"]})
    js.connect()
    return js, s


def dumped(s):
    return json.loads(json.dumps({n: x.dump() for n, x in s.items()}, default=float))


def materials(case):
    from dst.props import c16

    if not case["db"]:
        return []
    out = []
    for e in case["chem"]["ents"]:
        if e["k"] == "g":
            out.append(c16.document({"c": e["c"], "id": e["u"], "e": e["d"][:2], "has": e["d"][2]}))
    return json.loads(json.dumps(out, default=float))


# ------------------------------------------------------------------ the workflow
def build(case):
    """Jobs in order; later ones refer to the outputs of earlier ones."""
    from jobflow import Flow
    from rxn_network.core import Composition
    from rxn_network.entries.entry_set import GibbsEntrySet
    from rxn_network.flows.core import NetworkFlowMaker
    from rxn_network.jobs.core import CalculateCompetitionMaker, GetEntrySetMaker, NetworkMaker, PathwaySolverMaker, ReactionEnumerationMaker

    kw = dict(case["entry"])
    custom = kw.pop("custom", False)
    els = gen.elems(case["chem"])
    ents = gen.build_entries(case["chem"])
    if custom:
        kw["custom_entries"] = custom_entries(case)
    gm = GetEntrySetMaker(entry_db_name="mats", **kw)
    given = None if case["db"] else GibbsEntrySet(ents, calculate_e_above_hulls=kw["calculate_e_above_hulls"])
    oe, mu = case["open"] or (None, 0.0)
    target = Composition(case["target"]).reduced_formula
    pre = [Composition(gen.gas(x)).reduced_formula if x in ("O", "N", "F", "Cl") else x for x in Composition(target).as_dict()]
    if case["kind"] == "net":
        sm = None
        if case["solve"]:
            sm = PathwaySolverMaker(precursors=pre, targets=[target], **case["solve"])
        nm = NetworkMaker(precursors=pre, targets=[target], calculate_pathways=case["k"])
        fm = NetworkFlowMaker(get_entry_set_maker=gm, network_maker=nm, solver_maker=sm, open_elem=oe, chempots=[mu] if oe else None,
                              use_basic_enumerators=case["flow"]["basic"], use_minimize_enumerators=case["flow"]["mini"],
                              basic_enumerator_kwargs={"n": 2, "quiet": True}, minimize_enumerator_kwargs={"quiet": True})
        flow = fm.make(pre, [target], entries=given)
    else:
        jobs = []
        es = given
        if es is None:
            jobs.append(gm.make("-".join(els)))
            es = jobs[0].output.entries
        if case["kind"] != "entries":
            jobs.append(ReactionEnumerationMaker().make([enums.make_enum(e) for e in case["enums"]], es))
        if case["kind"] == "compete":
            m = CalculateCompetitionMaker(open_elem=oe, chempot=mu, **case["flags"])
            jobs.append(m.make([jobs[-1].output.rxns], es, case["target"]))
        flow = Flow(jobs)
    return [j for j, _ in flow.iterflow()]


def custom_entries(case):
    from pymatgen.core import Lattice, Structure
    from pymatgen.entries.computed_entries import ComputedStructureEntry

    els = gen.elems(case["chem"])
    sp = [els[0], els[0], els[-1]]
    return [ComputedStructureEntry(Structure(Lattice.cubic(3.9), sp, [[0, 0, 0], [0.5, 0.1, 0], [0.1, 0.5, 0.5]]), -13.5, entry_id="custom-1",
                                   parameters={"run_type": "GGA"})]


# ------------------------------------------------------------------ what a document holds
def canonical(x):
    return json.loads(json.dumps(x, default=str))


def observe(doc):
    """{"exact": everything, "canon": what every correct run agrees on}"""
    from dst.props import c19

    P = c19.P
    ex, ca = {}, {}
    for k in type(doc).model_fields:
        v = getattr(doc, k)
        if k == "last_updated":
            continue
        n = type(v).__name__
        if n == "GibbsEntrySet":
            ex[k] = c19.ob_eset(v, [0.3])
            ca[k] = sorted(repr(c19.c15.value(e)) + repr(P(e.data)) for e in v)
        elif n == "ReactionSet":
            rs = list(v.get_rxns())
            ex[k] = {"rxns": [c19.ob_rxn(r) for r in rs], "open": str(v.open_elem), "mu": c19.F(v.chempot), "entries": [repr(c19.c15.value(e)) for e in v.entries]}
            ca[k] = {"rxns": sorted(repr(ops.scored_key(r)) for r in rs), "open": str(v.open_elem), "mu": c19.F(v.chempot),
                     "entries": sorted(repr(canon.entry_key(e)) for e in v.entries)}
        elif n == "ReactionNetwork":
            ex[k] = c19.ob_net(v, None)
            ca[k] = {a: b for a, b in ex[k].items() if a not in ("edges", "reactions", "costs")}
            ca[k]["reactions"] = sorted(repr(canon.rxn_key(r, energy=True)) for r in v.rxns)
            ca[k]["n_edges"] = None if ex[k]["edges"] is None else len(ex[k]["edges"])
        elif n == "PathwaySet":
            ex[k] = c19.ob_pset(v)
            ca[k] = paths_key(v)
        elif n == "PathwaySolver":
            ex[k] = c19.ob_solver(v)
            ca[k] = {a: b for a, b in ex[k].items() if a not in ("paths", "rxns")} | {"paths": paths_key(v.pathways)}
        elif n == "ComputedReaction" or n == "OpenComputedReaction":
            ex[k] = c19.ob_rxn(v)
            ca[k] = repr(canon.rxn_key(v, energy=True))
        elif k == "enumerators":
            ex[k] = ca[k] = [[type(e).__name__, P({a: b for a, b in vars(e).items() if not a.startswith("_") and a not in ("logger", "tqdm")})] for e in v or []]
        else:
            ex[k] = ca[k] = P(v)
    return canonical({"type": type(doc).__name__, "exact": ex, "canon": ca})


def unrecorded(maker, doc):
    """Settings of the maker that its document records otherwise."""
    from dst.props import c19

    out = []
    for k in type(doc).model_fields:
        if k != "name" and k in vars(maker):
            v = getattr(maker, k)
            if v is None or isinstance(v, (bool, int, float, dict)) or type(v).__name__ == "Element":
                if c19.P(v) != c19.P(getattr(doc, k)):
                    out.append(f"{k}: made with {v!r}, recorded {getattr(doc, k)!r}")
    return sorted(out)


def paths_key(ps):
    """Paths below the highest cost present (among equal costs at the end, any may be chosen)."""
    t = [round(float(p.total_cost), 5) for p in ps.paths]
    top = max(t, default=0)
    return {"totals": sorted(t), "paths": sorted(repr((sorted(repr(canon.rxn_key(r, energy=True)) for r in p.reactions), [canon.q(c, 5) for c in getattr(p, "coefficients", [])] and 1))
                                                 for p, x in zip(ps.paths, t) if x < top - 1e-5)}


@contextlib.contextmanager
def settings(js):
    from jobflow import SETTINGS

    old = SETTINGS.JOB_STORE
    SETTINGS.JOB_STORE = js
    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            warnings.simplefilter("ignore")
            yield
    finally:
        SETTINGS.JOB_STORE = old


def attempt(arg, j=None):
    """Run one job once on the databases given; what is left in them, and how it went."""
    from monty.json import MontyDecoder

    from dst.stores import Crash

    js, s = stores(arg["dump"], arg["seed"])
    f = arg.get("fault")
    with settings(js):
        j = j or MontyDecoder().process_decoded(json.loads(arg["job"]))
        for x in s.values():
            x.arm([])
        if f and f["store"] != "ray":
            grp = {"docs": ["docs"], "mats": ["mats"], "blobs": BLOBS}[f["store"]]
            for n in grp:
                s[n].arm([{"on": f["on"], "at": f["at"], "how": f["how"]}])
        box = {}

        def go():
            try:
                box["r"] = j.run(js)
            except Crash:
                box["crash"] = True

        r = base.Run(arg["sched"], go, faults=f["faults"] if f and f["store"] == "ray" else ())
        out = {"counts": {n: dict(x.n) for n, x in s.items()}, "fired": sorted(y for x in s.values() for y in x.fired), "simfired": dict(r.cl.fired), "hang": r.hang,
               "tasks": len(r.cl.tasks), "puts": r.cl.n_puts, "sig": r.cl.signature()}
        for x in s.values():
            x.arm([])
        out["dump"] = dumped(s)
        if "crash" in box:
            out["status"] = "crash"
        elif not r.ok:
            out["status"] = "error"
            out["err"] = r.why()
            out["type"] = type(r.err).__name__
        else:
            out["status"] = "ok"
            out["ob"] = observe(box["r"].output)
            out["unrecorded"] = unrecorded(j.maker, box["r"].output)
    return out


def reload(arg):
    """The stored document, loaded."""
    from monty.json import MontyDecoder

    js, s = stores(arg["dump"], arg["seed"])
    with settings(js):
        kernel.use(base.REF_SPEC)
        d = js.query_one({"uuid": arg["uuid"]}, load=False)
        if d is None:
            return {"none": True}
        try:
            d = js.query_one({"uuid": arg["uuid"]}, load=True)
        except Exception as e:
            return {"err": f"{type(e).__name__}: {str(e)[:200]}"}
        inline = {k: isinstance(v, dict) and "blob_uuid" in v for k, v in js.query_one({"uuid": arg["uuid"]}, load=False)["output"].items()}
        try:
            x = MontyDecoder().process_decoded(d["output"])
            return {"ob": observe(x), "name": d["name"], "blobs": sorted(k for k, v in inline.items() if v)}
        except Exception as e:
            return {"undecodable": base.describe(e)}


def _same(a, b):
    from dst.props import c19

    return c19.differ(a, b)


FATAL_FIRED = ("put_fail", "lose_put", "app_exception", "body_exception")
WANT_BLOBS = {"EntrySetDocument": ["entries"], "EnumeratorTaskDocument": ["rxns"], "CompetitionTaskDocument": ["rxns"], "NetworkTaskDocument": ["network"],
              "PathwaySolverTaskDocument": []}


def run(case):
    from monty.json import MontyEncoder

    reborn.warm()
    res = base.Res()
    mats = materials(case)
    js, s = stores({"mats": mats}, case["order"])
    start = dumped(s)
    with settings(js):
        try:
            ref_jobs, jobs = build(case), build(case)
        except ValueError:
            res.skipped += 1
            return res
        texts = [json.dumps(j, cls=MontyEncoder) for j in jobs]
    # undisturbed
    ref = []
    dump = start
    for j in ref_jobs:
        r = attempt({"dump": dump, "seed": case["order"], "sched": base.REF_SPEC}, j)
        ref.append(r)
        if r["hang"]:
            res.bad("hang", f"{j.name}: {r['hang']}")
            return res
        if r["status"] != "ok":
            break
        dump = r["dump"]
    res.probe("jobs_ok", sum(r["status"] == "ok" for r in ref))
    dump = start
    uuids = []
    for i, r0 in enumerate(ref):
        j = jobs[i]
        solver = "solve" in j.name
        att = case["att"][i % len(case["att"])]
        label = f"job {i} ({r0.get('ob', {}).get('type') or j.name})"
        plan = [*att["faults"], None]
        for k, f in enumerate(plan):
            f = copy.deepcopy(f)
            where = f["where"] if f else att["where"]
            if f and f["store"] == "ray":
                if not r0["tasks"]:
                    continue
                f["faults"] = gen.resolve(f["faults"], r0["tasks"], r0["puts"])
            elif f:
                grp = {"docs": ["docs"], "mats": ["mats"], "blobs": BLOBS}[f["store"]]
                n = max(r0["counts"][g][f["on"]] for g in grp)
                if not n:
                    continue
                f["at"] = 1 + int(f["u"] * n)
            arg = {"dump": dump, "seed": case["order"] + k, "sched": case["sched"] if k % 2 else base.REF_SPEC, "fault": f, "job": texts[i]}
            try:
                if where == "here" or solver:
                    r = attempt(arg, None if solver and where != "here" else j)
                else:
                    r = reborn.call(case["order"] + i + k, "dst.props.c12", "attempt", arg)
                    res.fire("restart")
            except reborn.LifeError as e:
                res.bad("crash", f"{label}: {e}")
                return res
            dump = r["dump"]
            res.execs += 1
            res.sigs.append(r["sig"] + repr((f and f["store"], r["fired"])))
            for x in r["fired"]:
                res.fire(x)
            for x, n in r["simfired"].items():
                res.fire(x, n)
            hit = bool(r["fired"]) or (f is not None and any(x in r["simfired"] for x in FATAL_FIRED))
            if hit:
                res.nontrivial = True
            fl = f"{label}, attempt {k + 1} {where} with {f and {a: b for a, b in f.items() if a not in ('u', 'where')}}"
            if r["hang"]:
                res.bad("hang", f"{fl}: {r['hang']}")
                return res
            if f is None and r["status"] != r0["status"]:
                res.bad("rerun", f"{fl}: {r['status']} {r.get('err')}, undisturbed: {r0['status']} {r0.get('err')}")
                return res
            if f is None and r0["status"] == "error" and r["type"] != r0["type"]:
                res.bad("rerun", f"{fl}: {r.get('err')}, undisturbed: {r0.get('err')}")
                return res
            if f is not None and not hit and r["status"] != r0["status"] and not (r0["status"] == "ok" and r["simfired"]):
                res.bad("rerun", f"{fl}: no fault took effect, yet {r['status']} {r.get('err')}, undisturbed: {r0['status']} {r0.get('err')}")
                return res
            if r.get("unrecorded"):
                res.bad("settings", f"{fl}: {r['unrecorded']}")
                return res
            if r["status"] == "ok" and r["fired"]:
                res.bad("hidden", f"{fl}: {r['fired']}, yet the job counts as done")
                return res
            # another process looks at what is there
            try:
                got = reborn.call(case["order"] + i + k + 1, "dst.props.c12", "reload", {"dump": dump, "seed": case["order"] + 5, "uuid": j.uuid})
            except reborn.LifeError as e:
                res.bad("reload", f"{fl}: {e}")
                return res
            if "undecodable" in got:
                res.bad("reload", f"{fl}: the stored document can not be decoded: {got['undecodable']}")
            elif r["status"] == "ok":
                if "ob" not in got:
                    res.bad("reload", f"{fl}: done, but the document {'is missing' if 'none' in got else 'can not be loaded: ' + got['err']}")
                else:
                    d = _same(r["ob"]["exact"], got["ob"]["exact"]) or _same(r["ob"]["type"], got["ob"]["type"])
                    if d:
                        res.bad("differs", f"{fl}: computed | stored: {d}")
                    if got["blobs"] != WANT_BLOBS[r["ob"]["type"]] and not set(WANT_BLOBS[r["ob"]["type"]]) <= set(got["blobs"]):
                        res.bad("placement", f"{fl}: {WANT_BLOBS[r['ob']['type']]} belong in additional stores, found {got['blobs']}")
            elif "err" in got:
                res.probe("incomplete_document_refused")
            elif "none" in got:
                res.probe("no_document")
            if "ob" in got and not res.violations:
                if r0["status"] != "ok":
                    res.bad("partial", f"{fl}: a document is there although the job can not succeed ({r0.get('err')})")
                else:
                    d = _same(r0["ob"]["canon"], got["ob"]["canon"])
                    if d:
                        res.bad("result", f"{fl} ({r['status']}): undisturbed | stored: {d}")
            if res.violations:
                return res
            if r["status"] == "ok" and f is not None:
                res.probe("done_in_spite_of_plan")
        uuids.append(j.uuid)
        res.probe(f"job_{r0.get('ob', {}).get('type', 'failing')}")
        if r0["status"] != "ok":
            break
    # nothing a later job did may affect the documents of earlier ones
    if len(uuids) > 1 and ref[0]["status"] == "ok":
        got = reborn.call(case["order"], "dst.props.c12", "reload", {"dump": dump, "seed": 1, "uuid": uuids[0]})
        d = _same(ref[0]["ob"]["canon"], got.get("ob", {}).get("canon"))
        if d:
            res.bad("later", f"after the whole workflow the first document differs: {d}")
    return res


def shrink(case):
    for i, a in enumerate(case["att"]):
        for k in range(len(a["faults"])):
            c = copy.deepcopy(case)
            del c["att"][i]["faults"][k]
            yield c
        if a["where"] == "life":
            c = copy.deepcopy(case)
            c["att"][i]["where"] = "here"
            yield c
    if case["kind"] == "net" and case["solve"]:
        yield {**case, "solve": None}
    if case["kind"] == "compete":
        yield {**case, "kind": "enum"}
    if case["kind"] == "enum" and case["db"]:
        yield {**case, "kind": "entries"}
    if len(case["enums"]) > 1:
        yield {**case, "enums": case["enums"][:1]}
    for c in base.shrink_common(case):
        if all(e["k"] != "g" or not c["db"] or "d" in e for e in c["chem"]["ents"]):
            yield c
