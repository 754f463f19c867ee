"""C22: enumerators, job makers, solvers and entry sets give the same answer whatever they were used for before."""
from __future__ import annotations

import copy
from collections import Counter
from types import SimpleNamespace

from dst import base, canon, enums, gen, ops, rx, solve
from dst.props.c02 import delta

QUICK = 220
THOROUGH = 8000
RULE = ("A case is a history of 3-7 uses of a few caller-owned tools (enumerators alone and several together, enumeration, competition "
        "and network job makers; or one pathway solver) on two or three caller-owned entry sets of one chemistry, which hold different and "
        "shared entries at one or two temperatures and gain or lose entries between uses; solver histories vary the net reaction, limits and "
        "options. Every use runs on a cluster of its own size and schedule, the earlier one being gone; transparent and fatal faults hit some "
        "uses. Each use must give what newly created tools and sets with the same settings and current contents give; a use hit by a fatal "
        "fault may fail instead. Non-trivial: a tool was used again on something else, or after a failure, or a set had been edited.")
REAL = ["enumerators, run_enumerators, ReactionEnumerationMaker, CalculateCompetitionMaker, NetworkMaker, PathwaySolver, GibbsEntrySet"]
STUB = ["ray (scheduler, workers, object store): deterministic simulator"]
ASSUME = ["newly created tools on newly created inputs answer right (C01, C08, C09, C10, C07)"]


# ------------------------------------------------------------------ cases
def make(rng, tier):
    if rng.random() < 0.3:
        c = make_solver(rng)
        if c:
            return c
    chem = gen.chemistry(rng, n_elems=(2, 3), n_comp=(3, 6), interp=0.0, polymorphs=0.35)
    us = [e["u"] for e in chem["ents"]]
    el = [e["u"] for e in chem["ents"] if len(e["c"]) == 1]
    temps = [chem["T"], chem["T"] if rng.random() < 0.5 else rng.choice([300, 500, 900, 1500])]
    sets = []
    for i in range(rng.choice([1, 2, 2, 3])):
        keep = [u for u in us if u in el or rng.random() < 0.75]
        sets.append({"us": keep, "T": temps[i % 2]})
    fs, cs = gen.comps(chem), gen.comps(chem, elements=False)
    tools = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        k = rng.choice(["enum", "enum", "enum", "make", "compete", "compete", "net"])
        if k == "enum":
            tools.append({"t": "enum", "e": enums.gen_enum(rng, chem, p_novel=0.1)})
        elif k == "make":
            tools.append({"t": "make", "e": [enums.gen_enum(rng, chem, p_novel=0.0) for _ in range(rng.choice([1, 2]))]})
        elif k == "net":
            tools.append({"t": "net", "e": enums.gen_enum(rng, chem, "basic", p_prec=0.0, p_targ=0.0), "k": rng.choice([1, 3, 5]),
                          "pre": rng.sample(fs, min(len(fs), 2)), "targets": rng.sample(cs, min(len(cs), rng.choice([1, 1, 2])))})
        else:
            s = ops.gen_compete(rng, rng.choice(["compete", "compete", "chempot", "both"]), chem)
            del s["chem"]
            tools.append({"t": "compete", "s": s})
    for t in tools:
        for e in ([t["e"]] if isinstance(t.get("e"), dict) else t.get("e") or []):
            if e["kind"] in ("basic", "open"):
                e["n"] = min(e["n"], 2)
                e["chunk_size"] = max(e["chunk_size"], 7)
            e["max_num_jobs"] = max(e.get("max_num_jobs", 9), 2)
    uses = []
    for _ in range(rng.choice([3, 4, 4, 5, 6, 7])):
        i = rng.randrange(len(tools))
        u = {"tool": [i], "set": rng.randrange(len(sets)), "sched": gen.schedule(rng), "faults": [], "edit": []}
        u["sched"]["stragglers"] = 0.0
        if tools[i]["t"] == "enum" and rng.random() < 0.3:
            u["tool"] = [j for j, t in enumerate(tools) if t["t"] == "enum"]
        if rng.random() < 0.35:
            u["faults"] = gen.faults(rng, gen.FATAL + gen.TRANSPARENT, (1, 2))
        if rng.random() < 0.35:
            u["edit"] = [[rng.choice(["add", "drop"]), rng.randrange(len(sets)), rng.choice(us)] for _ in range(rng.choice([1, 1, 2]))]
        if rng.random() < 0.3 and cs:
            u["target"] = rng.choice(cs)
        uses.append(u)
    return {"kind": "tools", "chem": chem, "sets": sets, "tools": tools, "uses": uses}


def make_solver(rng):
    c = solve.gen_solve(rng, n_comp=(3, 5), combos=2)
    if c is None:
        return None
    c["chunk"] = {1: 11, 2: 37, 3: 100, 7: 300}.get(c["chunk"], c["chunk"])
    nets = [c["net"]]
    by = {e["u"]: e for e in c["chem"]["ents"]}
    els = gen.elems(c["chem"])
    for _ in range(20):
        if len(c["rxns"]) < 2 or len(nets) == 3:
            break
        tot = Counter()
        for r in rng.sample(c["rxns"], 2):
            m = rng.choice([1.0, 2.0, 0.5])
            for u, x in zip(r["e"], r["c"]):
                tot[u] += m * x
        t = {u: x for u, x in tot.items() if abs(x) > 1e-9}
        us = list(t)
        if len(us) < 2 or len({gen.rkey(by[u]["c"]) for u in us}) < len(us):
            continue
        co = rx.solve([by[u] for u in us], els)
        if co is not None:
            nets.append({"e": us, "c": [float(x) for x in (co if co[0] * t[us[0]] > 0 else -co)]})
    uses = []
    draw = {"net": lambda: rng.randrange(-1, len(nets)) if not c.get("pick") or rng.random() < 0.3 else -1, "n": lambda: rng.choice([1, 2, 2, 3]),
            "find": lambda: rng.random() < (0.85 if c.get("pick") else 0.5), "cutoff": lambda: rng.choice([0.0, -0.05, 0.5, 0.5]),
            "basic": lambda: rng.random() < 0.6, "mini": lambda: rng.random() < 0.5, "filter": lambda: rng.random() < 0.3}
    u = {k: f() for k, f in draw.items()}
    for _ in range(rng.choice([2, 3, 3, 4])):
        u = dict(u)
        for k in rng.sample(list(draw), rng.choice([1, 1, 2, 3])) if uses else ():
            u[k] = draw[k]() if k not in ("find", "basic", "mini", "filter") else not u[k]
        if u["find"]:
            u["n"] = min(u["n"], 2)
        u["sched"] = gen.schedule(rng)
        u["faults"] = gen.faults(rng, gen.FATAL + gen.TRANSPARENT, (1, 2)) if rng.random() < 0.35 else []
        u["sched"]["stragglers"] = 0.0
        uses.append(u)
    return {"kind": "solver", "s": c, "nets": nets, "uses": uses}


# ------------------------------------------------------------------ the tools
def make_tool(t):
    from rxn_network.costs.functions import Softplus
    from rxn_network.jobs.core import NetworkMaker, ReactionEnumerationMaker

    if t["t"] == "enum":
        return enums.make_enum(t["e"])
    if t["t"] == "make":
        return (ReactionEnumerationMaker(), [enums.make_enum(e) for e in t["e"]])
    if t["t"] == "net":
        return NetworkMaker(cost_function=Softplus(300), precursors=list(t["pre"]), targets=list(t["targets"]), calculate_pathways=t["k"])
    return ops.maker(t["s"])


def use(ts, tools, es, u, sets=None):
    """The call of one use: (function, key of its value)."""
    from rxn_network.enumerators.utils import run_enumerators

    t, tool = ts[0], tools[0]

    def key(kind, spec=None):
        return lambda v: ops.Op.key(SimpleNamespace(kind=kind, spec=spec), v)

    if len(ts) > 1:
        return (lambda: run_enumerators(tools, es)), key("union")
    if t["t"] == "enum":
        return (lambda: tool.enumerate(es)), key("enum", {"enums": [t["e"]]})
    if t["t"] == "make":
        m, en = tool
        # one or more enumerators: the duplicate-free union, as documented
        return (lambda: type(m).make.original(m, en, es)), lambda d: (key("union")(d.rxns), tuple(sorted(map(str, d.elements))), d.chemsys)
    if t["t"] == "net":
        return (lambda: type(tool).make.original(tool, sets)), ops.net_key
    target = u.get("target") or t["s"]["target"]
    return (lambda: type(tool).make.original(tool, sets, es, target)), key(t["s"]["op"])


def needed(t, es):
    """Reaction sets the job gets, made by new enumerators from the live set."""
    if t["t"] == "net":
        r = base.Run(base.REF_SPEC, lambda: [enums.make_enum(t["e"]).enumerate(es)])
        return r.value
    if t["t"] == "compete":
        return ops.competition_sets(t["s"], es)
    return ()


def run(case):
    if case["kind"] == "solver":
        return run_solver(case)
    from rxn_network.entries.entry_set import GibbsEntrySet

    res = base.Res()
    chem = case["chem"]
    tabs = {}

    def entry(T, u):
        if T not in tabs:
            c = {**chem, "T": T}
            tabs[T] = rx.by_u(c, gen.build_entries(c))
        return tabs[T].get(u)

    live = [GibbsEntrySet([x for x in (entry(s["T"], u) for u in s["us"]) if x is not None]) for s in case["sets"]]
    model = [list(s["us"]) for s in case["sets"]]
    tools = [make_tool(t) for t in case["tools"]]
    used = {}
    for n, u in enumerate(case["uses"]):
        ts = [case["tools"][i] for i in u["tool"]]
        for how, j, x in u["edit"]:
            e = entry(case["sets"][j]["T"], x)
            if e is None:
                continue
            if how == "add" and x not in model[j]:
                live[j].add(e)
                model[j].append(x)
            elif how == "drop" and x in model[j] and len(model[j]) > 1:
                live[j].discard(e)
                model[j].remove(x)
            res.probe("edited")
        j = u["set"]
        T = case["sets"][j]["T"]
        ids = tuple(sorted(model[j]))
        c2 = {**chem, "T": T}
        bu = rx.by_u(c2, gen.build_entries(c2))
        fresh = GibbsEntrySet([bu[x] for x in model[j] if x in bu])
        new_tools = [make_tool(t) for t in ts]
        s1 = needed(ts[0], fresh)
        s2 = needed(ts[0], live[j])
        if s1 is None or s2 is None:
            if (s1 is None) != (s2 is None):
                res.bad("differs", f"use {n}: enumeration works with only one of the set used before and a new one")
                return res
            continue
        f, key = use(ts, new_tools, fresh, u, s1)
        ref = base.Run(u["sched"], f, res)
        if ref.hang:
            res.bad("hang", f"use {n}: {ref.why()}")
            return res
        f, _ = use(ts, [tools[i] for i in u["tool"]], live[j], u, s2)
        kf = gen.resolve(u["faults"], len(ref.cl.tasks), ref.cl.n_puts)
        r = base.Run(u["sched"], f, res, kf)
        what = f"use {n} ({'+'.join(t['t'] for t in ts)} on set {j})"
        for i in u["tool"]:
            before = used.get(i, [])
            res.nontrivial |= any(b != (j, ids) or not ok for b, ok in before)
            used.setdefault(i, []).append(((j, ids), r.ok))
        res.probe("tool_" + ts[0]["t"])
        if not judge(res, what, ref, r, key, u, case):
            return res
    return res


def judge(res, what, ref, r, key, u, case):
    if r.hang:
        res.bad("hang", f"{what}: {r.why()}")
        return False
    if not ref.ok:
        if r.ok:
            res.bad("error-lost", f"{what}: returned, new tools raise {ref.why()}")
            return False
        return True
    if not r.ok:
        fatal = any(f["f"] in gen.FATAL for f in u["faults"])
        if fatal and any(k not in ("straggler", "slow") for k in r.cl.fired):
            res.probe("failed_use")
            return True
        res.bad("failed", f"{what}: {r.why()}; new tools succeed")
        return False
    if key(r.value) != key(ref.value):
        res.bad("differs", f"{what}: {delta(key(r.value), key(ref.value))}")
        return False
    return True


def run_solver(case):
    res = base.Res()
    s = case["s"]

    def start():
        st = solve.setup(s)
        if st is None:
            return None
        es, ps, own, cf, _ = st
        bu = {}
        ents = gen.build_entries(s["chem"])
        bu = rx.by_u(s["chem"], ents)
        oe, mu = s["open"] or (None, None)
        nets = [(rx.build([x], bu, oe, mu) or [None])[0] for x in case["nets"]]
        return solve.solver(s, es, ps, cf), [*nets, own]

    st = start()
    if st is None:
        res.skipped += 1
        return res
    tool, nets = st
    key = lambda v: ops.Op.key(SimpleNamespace(kind="solve", spec=s), v)  # noqa: E731
    seen = []
    for n, u in enumerate(case["uses"]):
        if nets[u["net"]] is None:
            continue
        t2, nets2 = start()
        ref = base.Run(u["sched"], lambda: solve.solve(u, t2, nets2[u["net"]]), res)
        if ref.hang:
            res.bad("hang", f"use {n}: {ref.why()}")
            return res
        kf = gen.resolve(u["faults"], len(ref.cl.tasks), ref.cl.n_puts)
        r = base.Run(u["sched"], lambda: solve.solve(u, tool, nets[u["net"]]), res, kf)
        opts = [u[k] for k in ("net", "n", "find", "cutoff", "basic", "mini", "filter")]
        res.nontrivial |= any(o != opts or not ok for o, ok in seen)
        seen.append((opts, r.ok))
        res.probe("tool_solver")
        if not judge(res, f"use {n} (solver, {opts})", ref, r, key, u, case):
            return res
    return res


# ------------------------------------------------------------------ minimising
def shrink(case):
    for i in range(len(case["uses"])):
        if len(case["uses"]) > 1:
            d = copy.deepcopy(case)
            del d["uses"][i]
            yield d
    for i, u in enumerate(case["uses"]):
        for k in ("faults", "edit"):
            if u.get(k):
                d = copy.deepcopy(case)
                d["uses"][i][k] = []
                yield d
        if "target" in u:
            d = copy.deepcopy(case)
            del d["uses"][i]["target"]
            yield d
        for k, v in (("mode", "fifo"), ("think", 0.0), ("nodes", 1), ("preinit", True), ("cpus", 2), ("cpus", 4)):
            if u["sched"].get(k) != v:
                d = copy.deepcopy(case)
                d["uses"][i]["sched"][k] = v
                yield d
        if case["kind"] == "solver":
            for k, v in (("find", False), ("filter", False), ("mini", False), ("n", 1), ("n", 2)):
                if u[k] != v and not (k == "n" and u[k] < v):
                    d = copy.deepcopy(case)
                    d["uses"][i][k] = v
                    yield d
    chem = case["chem"] if case["kind"] == "tools" else case["s"]["chem"]
    m = len(chem["ents"])
    step = max(1, m // 2)
    while m > 1:
        for i in range(0, m, step):
            d = copy.deepcopy(case)
            del (d["chem"] if case["kind"] == "tools" else d["s"]["chem"])["ents"][i:i + step]
            yield d
        if step == 1:
            break
        step //= 2
    if case["kind"] == "tools":
        for i, t in enumerate(case["tools"]):
            if t["t"] == "enum":
                for k in list(t["e"]):
                    if k not in ("kind", "open_phases", "open_elem", "mu", "n"):
                        d = copy.deepcopy(case)
                        del d["tools"][i]["e"][k]
                        yield d
