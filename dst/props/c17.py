"""C17: get_rxns_from_db returns the newest matching completed result."""
from __future__ import annotations

import copy
import json
import random
import warnings

from dst import base, canon, gen, reborn, rx, solve

QUICK = 1400
THOROUGH = 30000
RULE = ("A case is a history of 1-8 job completions in a results database: competition documents made by the real competition job "
        "(closed or open) or by a job of the same output schema, for a few targets, open elements, chemical potentials and workflow "
        "ids that largely coincide; unrelated enumeration documents; jobs run twice; interrupted writes that left a document "
        "without its reactions. Completion clocks are simulated: skewed, repeated, not in the order of writing. Documents are laid "
        "out in a seed-chosen order. Each of 2-4 lookups (present, absent, target written differently) runs undisturbed, with a "
        "failing read at a seed-chosen point, and again; some in another process that has only the saved databases. "
        "Non-trivial: at least two documents match one lookup, or one differs from it in one field only.")
REAL = ["get_rxns_from_db", "CalculateCompetitionMaker and its job document", "jobflow Job.run and JobStore, mongomock query language", "ReactionSet"]
STUB = ["clock: datetime replaced by a simulated one", "database servers: in-process stores with faults", "ray: simulator"]
ASSUME = ["documents completed at exactly the same time: either is accepted", "of a document whose reactions were never stored "
          "(interrupted write, library behaviour) the lookup may only fail"]


def make(rng, tier):
    c = solve.gen_solve(rng)
    while c is None:
        c = solve.gen_solve(rng)
    out = {"chem": c["chem"], "rxns": [r for r in c["rxns"]][:14], "sched": gen.schedule(rng), "order": rng.randrange(10**6)}
    for r in out["rxns"]:
        r.pop("d", None)
    els = gen.elems(c["chem"])
    opens = [[None, 0.0], [None, 0.0], ["O" if "O" in els else els[0], -0.5], [els[0], -0.5], ["O" if "O" in els else els[0], 0.0],
             ["O" if "O" in els else els[0], -1.25]]
    cand = rng.sample(opens, rng.choice([1, 2, 2, 3]))
    tgts = [rng.random() for _ in range(rng.choice([1, 1, 2]))]
    fws = rng.sample(range(1, 50), rng.choice([1, 2, 2]))
    if rng.random() < 0.25:
        fws[0] = 0
    docs = []
    t = 0
    for i in range(rng.randint(1, 8)):
        t += rng.choice([1, 60, 0.5, 3600, 86400])
        k = rng.random()
        d = {"k": "job" if k < 0.35 else "same" if k < 0.85 else "enum", "t": t, "tgt": rng.choice(tgts), "open": rng.choice(cand),
             "fw": rng.choice([*fws, None]), "n": rng.random(), "off": rng.random(), "calc": rng.random() < 0.5}
        x = rng.random()
        if x < 0.2:
            d["t"] = t - rng.choice([30, 7200, 200000])  # clock behind
        elif x < 0.3:
            d["t"] = t + rng.choice([100, 100000])  # clock ahead
        elif x < 0.36 and docs:
            d["t"] = docs[-1]["t"]
        if rng.random() < 0.1:
            d["torn"] = True
        if docs and rng.random() < 0.12:
            d["again"] = rng.randrange(len(docs))  # an earlier job is run again
        docs.append(d)
    out["docs"] = docs
    qs = []
    for _ in range(rng.choice([2, 3, 4])):
        d = rng.choice(docs)
        q = {"tgt": d["tgt"], "open": d["open"], "fw": d["fw"] if rng.random() < 0.5 else None, "form": rng.choice([0, 0, 1, 2, 3])}
        x = rng.random()
        if x < 0.12:
            q["open"] = rng.choice(opens)
        elif x < 0.2:
            q["fw"] = rng.choice(fws)
        elif x < 0.25:
            q["tgt"] = rng.random()
        elif x < 0.3:
            q["open"] = [q["open"][0], -0.75]
        q["fault"] = {"store": rng.choice(["docs", "rxns"]), "on": rng.choice(["query", "doc"]), "at": 1, "how": "error"}
        q["reborn"] = rng.random() < 0.12
        qs.append(q)
    out["q"] = qs
    return out


class Clock:
    """The wall clock as the code sees it, wherever it took `datetime` from."""

    def __init__(self):
        import datetime

        self.real = datetime.datetime
        clock = self
        self.t = 0.0

        class Simulated(datetime.datetime):
            @classmethod
            def now(cls, tz=None):
                b = clock.real(2026, 3, 1, tzinfo=tz) + datetime.timedelta(seconds=clock.t)
                return cls(b.year, b.month, b.day, b.hour, b.minute, b.second, b.microsecond, tzinfo=tz)

            @classmethod
            def utcnow(cls):
                return cls.now()

        self.cls = Simulated
        self.undo = []

    def __enter__(self):
        import sys

        for m in list(sys.modules.values()):
            n = getattr(m, "__name__", "")
            if n == "datetime" or (isinstance(n, str) and n.startswith(("rxn_network", "jobflow"))):
                for k, v in list(vars(m).items()):
                    if v is self.real:
                        setattr(m, k, self.cls)
                        self.undo.append((m, k))
        return self

    def __exit__(self, *a):
        for m, k in self.undo:
            setattr(m, k, self.real)


def targets(case, bu):
    by = {e["u"]: e for e in case["chem"]["ents"]}
    t = {bu[u].composition.reduced_formula for r in case["rxns"] for u, c in zip(r["e"], r["c"]) if c > 0 and u in by}
    return sorted(t)


def written(formula, form):
    """The same composition written differently."""
    from rxn_network.core import Composition

    c = Composition(formula)
    d = c.get_el_amt_dict()
    if form == 1:
        return "".join(f"{e}{n * 2:g}" for e, n in d.items())
    if form == 2:
        return " ".join(f"{e}{n * 3:g}" for e, n in reversed(list(d.items())))
    if form == 3:
        return f"({''.join(f'{e}{n:g}' for e, n in d.items())})2"
    return formula


def scored(rxns):
    """Order-free description of reactions with their data and energies."""
    out = []
    for r in rxns:
        d = {k: (canon.q(v, 4) if isinstance(v, float) else canon.fp(v)) for k, v in r.data.items()}
        out.append((canon.rxn_key(r, energy=True), tuple(sorted(d.items(), key=lambda x: x[0]))))
    return sorted(map(repr, out))


def opened(rxns, el, mu):
    from pymatgen.core.composition import Element
    from rxn_network.reactions.open import OpenComputedReaction

    return [OpenComputedReaction(r.entries, r.coefficients, {Element(el): mu}, data=copy.deepcopy(r.data)) for r in rxns]


def lookup(target, el, mu, fw):
    from rxn_network.utils.database import get_rxns_from_db

    kw = {}
    if el is not None:
        kw["open_elem"] = el
    if mu != 0.0:
        kw["chempot"] = mu
    if fw is not None:
        kw["fw_id"] = fw
    return get_rxns_from_db(target, **kw)


def life(arg):
    """One lookup in a process that has only the saved databases."""
    from jobflow import SETTINGS, JobStore

    from dst.stores import SimStore

    docs, blobs = SimStore(collection_name="docs", seed=arg["seed"]), SimStore(collection_name="rxns", seed=arg["seed"])
    docs.load(arg["docs"])
    blobs.load(arg["blobs"])
    SETTINGS.JOB_STORE = JobStore(docs, additional_stores={"rxns": blobs})
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return scored(lookup(*arg["q"]))


def run(case):
    from jobflow import SETTINGS, JobStore, job
    from pymatgen.core.composition import Element
    from rxn_network.entries.entry_set import GibbsEntrySet
    from rxn_network.jobs.core import CalculateCompetitionMaker
    from rxn_network.jobs.schema import CompetitionTaskDocument, EnumeratorTaskDocument
    from rxn_network.reactions.reaction_set import ReactionSet

    from dst.stores import Crash, SimStore, StoreError

    res = base.Res()
    if any(q["reborn"] for q in case["q"]):
        reborn.warm()
    ents = gen.build_entries(case["chem"])
    bu = rx.by_u(case["chem"], ents)
    tg = targets(case, bu)
    rs = rx.build(case["rxns"], bu)
    if not rs or not tg:
        res.skipped += 1
        return res
    es = GibbsEntrySet(ents)
    docs, blobs = SimStore(collection_name="docs", seed=case["order"]), SimStore(collection_name="rxns", seed=case["order"] + 1)
    store = JobStore(docs, additional_stores={"rxns": blobs})
    store.connect()
    old = SETTINGS.JOB_STORE
    SETTINGS.JOB_STORE = store
    log = {}  # the durable history: (uuid, index) -> document
    jobs = []
    try:
        with Clock() as clock, warnings.catch_warnings():
            warnings.simplefilter("ignore")
            for n, d in enumerate(case["docs"]):
                el, mu = d["open"]
                target = tg[int(d["tgt"] * len(tg))]
                if "again" in d and jobs[d["again"]] is not None:
                    j, what, isjob = jobs[d["again"]]
                else:
                    isjob = d["k"] == "job"
                    k = 1 + int(d["n"] * len(rs))
                    o = int(d["off"] * len(rs))
                    mine = copy.deepcopy((rs + rs)[o:o + k])
                    for i, r in enumerate(mine):
                        r.data.update({"doc": n, "i": i, "c": round(d["n"] + i, 4)})
                    if d["k"] == "job":
                        pool = [r for r in mine if len(r.reactants) <= 2] if d["calc"] and el is None else mine
                        if not pool:
                            jobs.append(None)
                            continue
                        m = CalculateCompetitionMaker(open_elem=el, chempot=mu, calculate_competition=d["calc"] and el is None)
                        sets = [ReactionSet.from_rxns(pool, entries=ents)]
                        j = m.make(sets, es, written(target, n % 4))
                        r = base.Run(base.REF_SPEC, lambda m=m, sets=sets: type(m).make.original(m, copy.deepcopy(sets), es, target))
                        what = ("comp", target, el, mu, list(r.value.rxns)) if r.ok else None
                    elif d["k"] == "same":
                        rset = ReactionSet.from_rxns(mine, entries=ents)
                        if el is not None and d["calc"]:
                            rset = ReactionSet.from_rxns(mine, entries=ents, open_elem=el, chempot=mu)

                        @job(rxns="rxns", output_schema=CompetitionTaskDocument)
                        def record(rset, target, el, mu):
                            return CompetitionTaskDocument(rxns=rset, target_formula=target, open_elem=Element(el) if el else None, chempot=mu,
                                                           task_label="calculate_competition")

                        j = record(rset, target, el, mu)
                        what = ("comp", target, el, mu, list(rset))
                    else:
                        rset = ReactionSet.from_rxns(mine, entries=ents)

                        @job(rxns="rxns", output_schema=EnumeratorTaskDocument)
                        def enumerated(rset, target):
                            return EnumeratorTaskDocument(rxns=rset, targets=[target])

                        j = enumerated(rset, target)
                        what = ("enum", target, el, mu, list(rset))
                    if d["fw"] is not None:
                        j.update_metadata({"fw_id": d["fw"]})
                    what = what and (*what, d["fw"])
                jobs.append((j, what, isjob))
                # the clock of the machine that runs the job
                clock.t = 10**6 + d["t"]
                blobs.arm([{"on": "update", "at": 1, "how": "crash"}] if d.get("torn") else [])
                had = (j.uuid, j.index) in log
                r = None
                try:
                    if isjob:
                        r = base.Run(case["sched"], lambda j=j: j.run(store), res)
                        if r.err is not None and what is not None:
                            res.bad("job", f"the competition job failed although its function does not: {r.why()}")
                    else:
                        j.run(store)
                except Crash:
                    res.fire("store_update_crash")
                    log[(j.uuid, j.index)] = {"t": d["t"], "what": what, "torn": True, "seq": n}
                    continue
                finally:
                    blobs.arm([])
                if what is not None and (r is None or r.ok):
                    log[(j.uuid, j.index)] = {"t": d["t"], "what": what, "torn": False, "seq": n}
                res.probe("job_ran_twice", had)
        # the order in which the database holds them is not the order of writing
        for s, k in ((docs, 3), (blobs, 4)):
            x = s.dump()
            random.Random(case["order"] + k).shuffle(x)
            s.remove_docs({})
            s.load(json.loads(json.dumps(x, default=float)))
        res.probe("documents", len(log))
        for q in case["q"]:
            ask(case, q, tg, log, docs, blobs, res)
    finally:
        SETTINGS.JOB_STORE = old
    return res


def ask(case, q, tg, log, docs, blobs, res):
    import contextlib
    import io

    from dst.stores import StoreError

    el, mu = q["open"]
    target = tg[int(q["tgt"] * len(tg))]
    wr = written(target, q["form"])
    near = match = 0
    best = []
    for d in log.values():
        if d["what"] is None or d["what"][0] != "comp":
            continue
        _, t, e, m, _, fw = d["what"]
        off = (t != target) + (e != el) + (abs(m - mu) > 1e-12) + (q["fw"] is not None and fw != q["fw"])
        near += off == 1
        if off == 0:
            match += 1
            best.append(d)
    top = max((d["t"] for d in best), default=None)
    best = [d for d in best if d["t"] == top]
    res.nontrivial |= match > 1 or near > 0
    res.probe("match" if match else "no_match")
    res.probe("several_match", match > 1)
    what = f"lookup of {wr} open {el} at {mu} workflow {q['fw']} ({match} of {len(log)} documents match)"
    args = [wr, el, mu, q["fw"]]

    def wanted(d):
        rxns = d["what"][4]
        return scored(rxns if el is None else opened(rxns, el, mu))

    def go():
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            return scored(lookup(*args))

    def once(label, fn):
        try:
            got = fn()
        except Exception as e:
            name = e.d["type"] if isinstance(e, reborn.LifeError) else type(e).__name__
            if not best:
                if name != "ValueError":
                    res.bad("no_match", f"{what}{label}: expected ValueError, got {name}: {e}")
            elif not any(d["torn"] for d in best):
                res.bad("crash", f"{what}{label}: {name}: {str(e)[:300]} @ {base.where(e)}")
            else:
                res.probe("incomplete_document_refused")
            return
        if not best:
            res.bad("no_match", f"{what}{label}: returned {len(got)} reactions although nothing matches")
            return
        ok = [wanted(d) for d in best if not d["torn"]]
        if got not in ok:
            src = [d["seq"] for d in log.values() if d["what"] and d["what"][0] == "comp" and sorted_data(got) == sorted_data(wanted_plain(d))]
            res.bad("result", f"{what}{label}: got {len(got)} reactions{f' (those of document {src})' if src else ''}, expected the {[len(x) for x in ok]} of "
                    f"document {[d['seq'] for d in best]}; first difference {first(got, ok[0] if ok else [])}")

    docs.arm([])
    blobs.arm([])
    res.execs += 1
    once("", go)
    n = {"docs": dict(docs.n), "rxns": dict(blobs.n)}
    res.sigs.append(f"{len(log)}:{match}:{q['form']}:{case['order'] % 997}")
    f = q["fault"]
    if n[f["store"]][f["on"]]:
        s = docs if f["store"] == "docs" else blobs
        s.arm([{**f, "at": 1 + int(q["tgt"] * 997) % n[f["store"]][f["on"]]}])
        try:
            got = go()
            if s.fired:
                res.bad("fault_hidden", f"{what}: {f['on']} on {f['store']} failed, but {len(got)} reactions were returned")
        except StoreError:
            pass
        except Exception as e:
            if best and not any(d["torn"] for d in best):
                res.bad("fault_hidden" if isinstance(e, ValueError) else "fault_crash", f"{what}: {f['on']} on {f['store']} failed: {base.describe(e)}")
        for x in s.fired:
            res.fire(x)
        s.arm([])
        once(" after the failure", go)
    if q["reborn"]:
        res.fire("restart")
        once(" in a new process", lambda: reborn.call(case["order"], "dst.props.c17", "life", {"docs": docs.dump(), "blobs": blobs.dump(), "q": args, "seed": case["order"]}))


def wanted_plain(d):
    return scored(d["what"][4])


def sorted_data(x):
    return sorted(s.rsplit("), (", 1)[-1] for s in x)


def first(a, b):
    for x, y in zip(a, b):
        if x != y:
            return f"{x[:300]} / {y[:300]}"
    return f"{len(a)} / {len(b)}"


def shrink(case):
    for i in range(len(case["docs"])):
        c = copy.deepcopy(case)
        del c["docs"][i]
        for d in c["docs"]:
            if d.get("again", -1) >= i:
                d.pop("again")
        if c["docs"]:
            yield c
    for i in range(len(case["q"])):
        c = copy.deepcopy(case)
        del c["q"][i]
        if c["q"]:
            yield c
    for i in range(len(case["rxns"])):
        c = copy.deepcopy(case)
        del c["rxns"][i]
        if c["rxns"]:
            yield c
    for q in range(len(case["q"])):
        if case["q"][q]["reborn"]:
            c = copy.deepcopy(case)
            c["q"][q]["reborn"] = False
            yield c
