"""C05: a network restored after a crash continues as the uninterrupted one would."""
from __future__ import annotations

import contextlib
import copy
import io
import json

from dst import base, canon, gen, net, reborn

QUICK = 520
THOROUGH = 15000
RULE = ("A case is a random reaction set, a history of 3-14 calls on its network (build, set precursors or target, find pathways) "
        "and 1-4 crash points between them. At a crash the process is gone; only the JSON text saved survives and the history "
        "goes on in a new process with another hash seed, from the network restored from it (as a decoded document, by "
        "from_dict, or repeatedly from the same decoded document). State and answers after every call must be those of the "
        "network that was never interrupted; pathways must be the k cheapest routes of the model. Non-trivial: precursors or "
        "target were set at a crash and a call followed.")
REAL = ["ReactionNetwork and everything it saves", "monty JSON encoding and decoding", "separate interpreters"]
STUB = ["the crash: the process is abandoned after the text was saved"]
ASSUME = ["the text saved is stored and read back intact (storage faults: C12)", "ties as in C07"]


def make(rng, tier):
    c = net.gen_net(rng, max_rxns=14)
    n = rng.randint(3, 14)
    ops = [{"o": "build"}] if rng.random() < 0.95 else []
    while len(ops) < n:
        k = rng.choice(["pre", "pre", "pre", "tar", "tar", "find", "find", "find", "build"] if len(ops) > 1 or rng.random() < 0.2 else ["pre", "tar"])
        if k == "build" and rng.random() < 0.6:
            continue
        ops.append({"o": k, "a": [rng.randrange(10000) / 10000 for _ in range(4)], "n": rng.choice([1, 2, 2, 3]), "k": rng.choice([1, 3, 6]),
                    "f": rng.random() < 0.5})
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        ops.insert(rng.randint(1, len(ops)), {"o": "crash", "how": rng.choice(["decoder", "from_dict", "twice", "resave"]),
                                              "seed": rng.randrange(2)})
    c["ops"] = ops
    return c


# ------------------------------------------------------------------ one life
class Life:
    def __init__(self, case, nw=None):
        self.case = case
        rxns, _ = net.reactions(case)
        self.model = net.Model(case, rxns)
        self.by = {}
        for r in rxns:
            for e in r.entries:
                self.by.setdefault(canon.entry_key(e), e)
        self.keys = sorted(self.by, key=repr)
        self.ground = {}
        for k in self.keys:
            f = self.by[k].composition.reduced_formula
            if f not in self.ground or self.by[k].energy_per_atom < self.by[self.ground[f]].energy_per_atom:
                self.ground[f] = k
        self.nw = net.network(case, rxns) if nw is None else nw

    def pick(self, a, as_entry):
        k = self.keys[int(a * len(self.keys))]
        f = self.by[k].composition.reduced_formula
        return (k, self.by[k]) if as_entry else (self.ground[f], f)

    def do(self, o):
        nw, k = self.nw, o["o"]
        out = {}
        try:
            if k == "build":
                nw.build()
            elif k == "pre":
                nw.set_precursors([self.pick(a, o["f"])[1] for a in o["a"][:o["n"]]])
            elif k == "tar":
                nw.set_target(self.pick(o["a"][0], o["f"])[1])
            elif k == "find":
                ch = [self.pick(a, o["f"]) for a in o["a"][:max(1, o["n"] - 1)]]
                paths = nw.find_pathways([x for _, x in ch], k=o["k"]).paths
                out["costs"] = [sum(p.costs) for p in paths]
                pre = [canon.entry_key(e) for e in nw.precursors]
                out["check"] = net.check_call(self.case, self.model, paths, pre, [x for x, _ in ch], o["k"])
        except Exception as e:
            out["err"] = type(e).__name__
            out["msg"] = f"{type(e).__name__}: {str(e)[:200]} @ {base.where(e)}"
        out["state"] = self.state()
        return out

    def state(self):
        nw = self.nw
        g = net.graph_key(nw.graph)

        def keys(es):
            return sorted(repr(canon.entry_key(e)) if hasattr(e, "composition") else f"not an entry: {type(e).__name__}" for e in es)

        return {"precursors": None if nw.precursors is None else keys(nw.precursors),
                "target": None if nw.target is None else keys([nw.target])[0],
                "reactions": sorted(repr(canon.rxn_key(r, normalise=False, energy=True)) + repr(canon.fp(r.data)) for r in nw.rxns),
                "entries": keys(nw.entries), "chemsys": nw.chemsys,
                "cost": [type(nw.cost_function).__name__, repr(nw.cost_function)],
                "costs": sorted(round(float(nw.cost_function.evaluate(r)), 9) for r in nw.rxns),
                "nodes": None if g is None else sorted(f"{a} x{n}" for a, n in g[0].items()),
                "edges": None if g is None else sorted(f"{a} x{n}" for a, n in g[1].items())}


def save(nw):
    from monty.json import MontyEncoder

    return json.dumps(nw, cls=MontyEncoder)


def restore(text, how):
    """(network, complaint)"""
    from monty.json import MontyDecoder
    from rxn_network.network.network import ReactionNetwork

    d = json.loads(text)
    if how == "decoder":
        return MontyDecoder().process_decoded(d), ""
    nw = ReactionNetwork.from_dict(d)
    if how == "resave":
        return restore(save(nw), "decoder")
    if how == "twice":
        if d != json.loads(text):
            lost = [k for k in json.loads(text) if k not in d]
            return nw, f"restoring changed the saved form (lost {lost})" if lost else "restoring changed the saved form"
        nw = ReactionNetwork.from_dict(d)
    return nw, ""


def life(arg):
    """Continue in a new process: restore, make the calls up to the next crash, save."""
    with contextlib.redirect_stdout(io.StringIO()):
        nw, bad = restore(arg["text"], arg["how"])
        lf = Life(arg["case"], nw)
        first = lf.state()
        outs = [lf.do(o) for o in arg["ops"]]
        return {"complaint": bad, "first": first, "outs": outs, "text": save(lf.nw) if arg["more"] else None}


# ------------------------------------------------------------------ the property
def same(a, b):
    for k in ("err", "check"):
        if bool(a.get(k)) != bool(b.get(k)):
            return f"{k}: {str(a.get('msg' if k == 'err' else k))[:400]} | {str(b.get('msg' if k == 'err' else k))[:300]}"
    if ("costs" in a) != ("costs" in b) or len(a.get("costs", [])) != len(b.get("costs", [])) or any(
            abs(x - y) > 1e-8 for x, y in zip(a.get("costs", []), b.get("costs", []))):
        return f"costs of the pathways: {a.get('costs')} | {b.get('costs')}"
    return diff(a["state"], b["state"])


def diff(a, b):
    for k in a:
        if a[k] != b.get(k):
            if isinstance(a[k], list) and isinstance(b.get(k), list):
                x = [i for i in a[k] if i not in b[k]][:1]
                y = [i for i in b[k] if i not in a[k]][:1]
                return f"{k}: {str(x)[:250]} | {str(y)[:250]} ({len(a[k])} | {len(b[k])})"
            return f"{k}: {str(a[k])[:250]} | {str(b.get(k))[:250]}"
    return ""


def run(case):
    with contextlib.redirect_stdout(io.StringIO()):
        return _run(case)


def _run(case):
    reborn.warm()
    res = base.Res()
    rxns, _ = net.reactions(case)
    if not rxns:
        res.skipped += 1
        return res
    # uninterrupted
    lf = Life(case)
    want = [json.loads(json.dumps(lf.do(o))) for o in case["ops"] if o["o"] != "crash"]
    # interrupted
    segs, crashes = [[]], []
    for o in case["ops"]:
        if o["o"] == "crash":
            segs.append([])
            crashes.append(o)
        else:
            segs[-1].append(o)
    lf = Life(case)
    got = [json.loads(json.dumps(lf.do(o))) for o in segs[0]]
    pos = len(got)
    hist = [o["o"] for o in case["ops"]]
    try:
        text = save(lf.nw)
    except Exception as e:
        res.bad("save", f"{hist}: saving after {hist[:pos]} raised {type(e).__name__}: {str(e)[:300]} @ {base.where(e)}")
        return res
    for i, (c, ops) in enumerate(zip(crashes, segs[1:])):
        res.fire("crash_restart")
        before = got[-1]["state"] if got else None
        try:
            r = reborn.call(c["seed"], "dst.props.c05", "life",
                            {"case": {k: v for k, v in case.items() if k != "ops"}, "text": text, "how": c["how"], "ops": ops, "more": i + 1 < len(crashes)})
        except reborn.LifeError as e:
            res.bad("restore", f"{hist}: crash {i} after {pos} calls, restored with {c['how']}: {e}")
            return res
        if r["complaint"]:
            res.bad("mutated", f"{hist}: crash {i} after {pos} calls: {r['complaint']}")
            return res
        if before is not None:
            d = diff(before, r["first"])
            if d:
                res.bad("differs", f"{hist}: after crash {i} ({c['how']}), before | restored: {d}")
                return res
            if (before["precursors"] or before["target"]) and ops:
                res.nontrivial = True
        got += r["outs"]
        pos += len(ops)
        text = r["text"]
        res.probe("restores")
    for n, (a, b) in enumerate(zip(want, got)):
        d = same(a, b)
        if d:
            calls = [o["o"] for o in case["ops"] if o["o"] != "crash"]
            res.bad("diverged", f"{hist}: call {n} ({calls[n]}), uninterrupted | interrupted: {d}")
            return res
    res.execs += 2 + len(crashes)
    res.steps += len(case["ops"])
    res.sigs.append(repr((hist, [c["how"] for c in crashes], len(rxns))))
    return res


def shrink(case):
    yield from base.shrink_common(case)
    n = len(case["rxns"])
    step = max(1, n // 2)
    while n > 1:
        for i in range(0, n, step):
            d = copy.deepcopy(case)
            del d["rxns"][i:i + step]
            if d["rxns"]:
                yield d
        if step == 1:
            break
        step //= 2
    for i, o in enumerate(case["ops"]):
        if o["o"] == "crash" and o["how"] != "decoder":
            d = copy.deepcopy(case)
            d["ops"][i]["how"] = "decoder"
            yield d
