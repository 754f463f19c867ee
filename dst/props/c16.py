"""C16: fetching entries from an entry database is complete or fails."""
from __future__ import annotations

import copy
import json
import random
import warnings

from dst import base, canon, gen

QUICK = 1600
THOROUGH = 25000
RULE = ("A case is an entry database (0-30 materials inside, partly inside and outside the requested elements, each with a GGA "
        "and/or +U entry, none, or entries of another kind, in a seed-chosen store order that changes with every query) and a "
        "request of 1-17 elements, as text or list, in any order, some elements named twice: 10-13 elements make several "
        "queries, more than 13 another kind of query. The fetch runs undisturbed, again with the elements in another order, "
        "with a failing query or cursor read at a seed-chosen point, with another fetch from the same database run while a "
        "cursor is being read, and again after the failure; small systems also through the entry-set job. Non-trivial: at "
        "least one material matches and at least one does not, or is to be skipped.")
REAL = ["get_entries_from_entry_db, get_all_entries_in_chemsys_from_entry_db", "GetEntrySetMaker with an entry database, process_entries",
        "query language of the store (mongomock)", "pymatgen entry decoding"]
STUB = ["database server and connection: in-process store with faults on queries and cursor reads"]
ASSUME = ["database documents carry consistent 'chemsys' (sorted) and 'elements' fields and one document per material"]
POOL = ["Li", "Na", "K", "Mg", "Ca", "Ba", "Y", "Mn", "Fe", "Al", "Si", "Ti", "Zn", "C", "N", "O", "S", "Cl", "F", "P", "Sr", "La", "Co", "Ni"]


def make(rng, tier):
    n = rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 8, 10, 11, 12, 13, 14, 15, 17])
    req = rng.sample(POOL, n)
    dup = rng.random() < 0.2
    names = req + ([rng.choice(req) for _ in range(rng.choice([1, 1, 2]))] if dup else [])
    rng.shuffle(names)
    job = n <= 4 and rng.random() < 0.35
    out = [e for e in POOL if e not in req]
    docs = []
    ids = iter(rng.sample(range(10, 9999), 200))
    seen = set()

    def mat(comp, both=None):
        d = {"c": comp, "id": next(ids)}
        d["has"] = both or rng.choice(["u", "g", "g", "ug", "ug", "ug", "", "none", "other", "gnull"])
        d["e"] = [round(-rng.uniform(1, 8), 5), round(-rng.uniform(1, 8), 5)]
        docs.append(d)

    if job:
        for el in req:
            mat({el: rng.choice([1, 2, 4])}, rng.choice(["g", "u", "ug"]))
    for _ in range(rng.choice([0, 3, 8, 15, 24])):
        k = min(n, rng.choice([1, 1, 2, 2, 2, 3, 3, 4, 5, n]))
        els = rng.sample(req, k)
        if rng.random() < 0.3 and out:
            els[rng.randrange(len(els))] = rng.choice(out)
        if rng.random() < 0.1 and out:
            els.append(rng.choice(out))
        mat({el: rng.choice([1, 1, 2, 3]) for el in els})
    docs = [d for d in docs if not ((k := repr(sorted(d["c"].items()))) in seen or seen.add(k))]
    rng.shuffle(docs)
    c = {"docs": docs, "req": names, "as": rng.choice(["str", "str", "list", "list", "tuple"]), "job": job, "order": rng.randrange(10**6),
         "fault": {"on": rng.choice(["query", "doc", "doc"]), "u": rng.random(), "how": "error"}, "nest": rng.random(),
         "T": rng.choice([300, 700, 1200]), "ehull": rng.choice([0.0, 0.05, 1.0]), "poly": rng.random() < 0.5}
    return c


def entry_dict(d, which):
    from pymatgen.core import Lattice, Structure
    from pymatgen.entries.computed_entries import ComputedStructureEntry

    sp = [el for el, k in d["c"].items() for _ in range(k)]
    n = len(sp)
    s = Structure(Lattice.cubic(round((14.0 * n) ** (1 / 3), 4)), sp, [[i / n, (i * 2 % n) / n, 0.1] for i in range(n)])
    return ComputedStructureEntry(s, d["e"][which] * n, entry_id=f"mp-{d['id']}-{['GGA', 'GGA+U'][which]}",
                                  parameters={"run_type": ["GGA", "GGA+U"][which]}).as_dict()


def document(d):
    has = d["has"]
    if has == "none":
        ents = None
    else:
        ents = {}
        if "u" in has and has != "gnull":
            ents["GGA+U"] = entry_dict(d, 1)
        if has in ("g", "ug"):
            ents["GGA"] = entry_dict(d, 0)
        if has == "gnull":
            ents = {"GGA+U": None, "GGA": entry_dict(d, 0)}
        if has == "other":
            ents = {"R2SCAN": entry_dict(d, 0)}
    return {"material_id": f"mp-{d['id']}", "chemsys": "-".join(sorted(d["c"])), "elements": sorted(d["c"]), "entries": ents,
            "nelements": len(d["c"])}


def expected(case):
    out = []
    for d in case["docs"]:
        if set(d["c"]) <= set(case["req"]):
            w = {"u": 1, "ug": 1, "g": 0, "gnull": 0}.get(d["has"])
            if w is not None:
                out.append((d, w))
    return out


def key(e):
    return canon.fp(e.as_dict())


def show(es):
    return sorted(f"{e.entry_id}:{e.composition.reduced_formula}" for e in es)


def run(case):
    from pymatgen.entries.computed_entries import ComputedStructureEntry
    from rxn_network.entries import utils

    from dst.stores import SimStore, StoreError

    res = base.Res()
    docs = json.loads(json.dumps([document(d) for d in case["docs"]], default=float))
    db = SimStore(collection_name="ents", seed=case["order"])
    db.load(docs)
    want = [ComputedStructureEntry.from_dict(entry_dict(d, w)) for d, w in expected(case)]
    wk = sorted(map(repr, map(key, want)))
    res.nontrivial = 0 < len(want) < len(docs)
    n = len(set(case["req"]))
    res.probe("several_queries", 10 <= n <= 13)
    res.probe("large_system", n > 13)
    res.probe("element_named_twice", n != len(case["req"]))
    res.probe("matching", len(want))

    def request(names):
        return "-".join(names) if case["as"] == "str" else (tuple if case["as"] == "tuple" else list)(names)

    def fetch(names=None):
        r = request(case["req"] if names is None else names)
        keep = copy.copy(r)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            x = utils.get_all_entries_in_chemsys_from_entry_db(db, r)
        if r != keep:
            res.bad("request_changed", f"request {keep} became {r}")
        return list(x)

    def check(es, what, cls="entries"):
        got = sorted(map(repr, map(key, es)))
        if got != wk:
            a, b = show(es), show(want)
            res.bad(cls, f"{what}: {len(got)} entries, {len(wk)} match; missing {[x for x in b if x not in a][:5]}, "
                    f"unexpected or repeated {[x for x in a if a.count(x) > b.count(x)][:5]} (request of {len(case['req'])})")

    db.arm([])
    try:
        check(fetch(), "fetch")
    except Exception as e:
        res.bad("crash", f"fetch failed although the database did not: {base.describe(e)}")
        return res
    nq = dict(db.n)
    res.probe("queries", nq["query"])
    res.probe("docs_read", nq["doc"])
    res.execs += 1
    res.sigs.append(f"{n}:{nq['query']}:{nq['doc']}:{case['order'] % 997}")
    # other order of the requested elements, and of the documents
    other = list(case["req"])
    random.Random(case["order"] + 1).shuffle(other)
    db.arm([])
    db.rng.seed(case["order"] + 7)
    check(fetch(other), "same elements in another order")
    # criteria given by caller
    for form, crit in [("text", "-".join(sorted(set(case["req"])))), ("dict", {"chemsys": "-".join(sorted(set(case["req"])))})]:
        if n == 1 and form == "text":
            continue
        got = utils.get_entries_from_entry_db(db, crit)
        w2 = [ComputedStructureEntry.from_dict(entry_dict(d, w)) for d, w in expected(case) if set(d["c"]) == set(case["req"])]
        if sorted(map(repr, map(key, got))) != sorted(map(repr, map(key, w2))):
            res.bad("criteria", f"criteria {form} {crit}: {show(got)[:5]}, expected {show(w2)[:5]}")
    # a fault
    f = case["fault"]
    total = nq[f["on"]]
    if total:
        at = int(f["u"] * total) + 1
        db.arm([{**f, "at": at}])
        try:
            es = fetch()
            if db.fired:
                res.bad("fault_hidden", f"{f['on']} {at} of {total} failed, but the fetch returned {len(es)} of {len(want)} entries")
        except StoreError:
            pass
        except Exception as e:
            res.bad("fault_crash", f"{f['on']} {at} of {total} failed: {base.describe(e)}")
        for x in db.fired:
            res.fire(x)
        db.arm([])
        check(fetch(), "fetch after the failure", "after_fault")
        # the failure is over before a caller's second attempt begins: it must not be remembered
    # another fetch while the cursor is read
    if nq["doc"]:
        at = int(case["nest"] * nq["doc"]) + 1
        sub = sorted(set(case["req"]))[: max(1, n - 1)]
        inner = []

        def hook(i):
            if i == at and not inner:
                inner.append(None)
                h, db.hook = db.hook, None
                k = dict(db.n)
                inner[0] = fetch(sub)
                db.n, db.hook = k, h

        db.arm([], hook)
        check(fetch(), "fetch with another one going on", "interleaved")
        res.probe("interleaved")
        w3 = [e for e in want if {str(x) for x in e.composition.elements} <= set(sub)]
        if inner and sorted(map(repr, map(key, inner[0]))) != sorted(map(repr, map(key, w3))):
            res.bad("interleaved", f"inner fetch: {show(inner[0])[:6]}, expected {show(w3)[:6]}")
    db.arm([])
    if sorted(map(repr, map(canon.fp, db.dump()))) != sorted(map(repr, map(canon.fp, docs))):
        res.bad("db_changed", "the fetches changed the database")
    if case["job"]:
        job(case, db, want, res)
    return res


def job(case, db, want, res):
    from jobflow import SETTINGS, JobStore
    from maggma.stores import MemoryStore
    from rxn_network.entries.utils import process_entries
    from rxn_network.jobs.core import GetEntrySetMaker

    from dst.stores import StoreError

    kw = {"temperature": case["T"], "e_above_hull": case["ehull"], "include_polymorphs": case["poly"], "include_nist_data": False,
          "calculate_e_above_hulls": False}
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ref = process_entries([copy.deepcopy(e) for e in want], **kw)
    except Exception:
        res.probe("job_undefined")
        return
    old = SETTINGS.JOB_STORE
    store = JobStore(MemoryStore(), additional_stores={"mats": db, "entries": MemoryStore()})
    store.connect()
    SETTINGS.JOB_STORE = store
    try:
        m = GetEntrySetMaker(entry_db_name="mats", **kw)
        for fault in (True, False):
            db.arm([{**case["fault"], "at": int(case["fault"]["u"] * max(1, len(want))) + 1}] if fault else [])
            j = m.make("-".join(case["req"]))
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    j.run(store)
                if db.fired:
                    res.bad("job_fault_hidden", f"{db.fired} while the job fetched entries, yet it completed")
            except StoreError:
                if not db.fired:
                    raise
                if store.count({"uuid": j.uuid}):
                    res.bad("job_fault_hidden", "the job failed but stored a document")
                res.probe("job_failed")
                continue
            except Exception as e:
                res.bad("job_crash", f"entry-set job failed: {base.describe(e)}")
                return
            d = store.query_one({"uuid": j.uuid}, load=True)
            from monty.json import MontyDecoder

            es = MontyDecoder().process_decoded(d["output"]).entries
            a = sorted(repr(canon.fp_entry(e)) for e in es)
            b = sorted(repr(canon.fp_entry(e)) for e in ref)
            res.probe("job_run")
            if a != b:
                res.bad("job", f"entry-set job stored {sorted(e.entry_id for e in es)}, expected {sorted(e.entry_id for e in ref)}")
    finally:
        SETTINGS.JOB_STORE = old


def shrink(case):
    for i in range(len(case["docs"])):
        c = copy.deepcopy(case)
        del c["docs"][i]
        yield c
    for i in range(len(case["req"])):
        if len(case["req"]) > 1:
            c = copy.deepcopy(case)
            del c["req"][i]
            yield c
    if case["job"]:
        yield {**case, "job": False}
