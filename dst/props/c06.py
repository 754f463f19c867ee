"""C06: network results depend only on the current configuration, not on history."""
from __future__ import annotations

import contextlib
import copy
import io

from dst import base, canon, gen, net

QUICK = 2400
THOROUGH = 80000
RULE = ("A case is a random reaction set and a history of 4-24 calls on one network: build, set precursors, set target, find "
        "pathways to one or more targets, given as formulas or entries, with repeats, rejected calls (unknown phases, no "
        "precursors, not built) and a cost function that fails at a chosen evaluation in between. After each call the graph must "
        "be that of a new network given only the most recent accepted precursors and target, and pathways found must be the k "
        "cheapest routes of the model for them. Non-trivial: precursors or target were changed after having been set.")
REAL = ["ReactionNetwork, Graph, NetworkEntry, yens_ksp", "PathwaySet, ReactionSet", "cost functions", "rustworkx"]
STUB = ["failures of cost evaluation are injected through the cost function passed in"]
ASSUME = ["a call that was rejected sets nothing; a search that failed part way may have set the target it reached",
          "ties as in C07"]


def make(rng, tier):
    c = net.gen_net(rng, max_rxns=16)
    n = rng.randint(4, 24)
    ops = [{"o": "build"}] if rng.random() < 0.9 else []
    while len(ops) < n:
        k = rng.choice(["pre"] * 5 + ["tar"] * 3 + ["find"] * 5 + ["build", "bad_pre", "bad_tar", "bad_find", "tail_find"])
        o = {"o": k, "a": [rng.randrange(10000) / 10000 for _ in range(4)], "n": rng.choice([1, 1, 2, 2, 3]), "k": rng.choice([1, 2, 4, 8]),
             "f": rng.random() < 0.4}
        if k == "pre" and rng.random() < 0.04:
            o["n"] = 0
        if k == "find" and rng.random() < 0.12:
            o["fault"] = rng.choice([1, 2, 5, 20])
        ops.append(o)
    c["ops"] = ops
    return c


class Boom(Exception):
    pass


class Cost:
    """The cost function given to the network, with a switch to fail."""

    def __init__(self, inner):
        self.inner, self.n, self.at, self.fired = inner, 0, None, 0

    def evaluate(self, rxn):
        self.n += 1
        if self.at is not None and self.n == self.at:
            self.fired += 1
            raise Boom("simulated failure of the cost function")
        return self.inner.evaluate(rxn)


def run(case):
    with contextlib.redirect_stdout(io.StringIO()):
        return _run(case)


def _run(case):
    res = base.Res()
    rxns, ents = net.reactions(case)
    if len(rxns) < 1:
        res.skipped += 1
        return res
    model = net.Model(case, rxns)
    by = {}
    for r in rxns:
        for e in r.entries:
            by.setdefault(canon.entry_key(e), e)
    keys = sorted(by, key=repr)
    ground = {}
    for k in keys:
        f = by[k].composition.reduced_formula
        if f not in ground or by[k].energy_per_atom < by[ground[f]].energy_per_atom:
            ground[f] = k
    outside = [e for e in ents if canon.entry_key(e) not in by]
    nw = net.network(case, rxns)
    cost = Cost(nw.cost_function)
    nw.cost_function = cost
    built, pre, tar = False, None, None
    changes = 0

    def pick(a, as_entry):
        k = keys[int(a * len(keys))]
        if as_entry:
            return k, by[k]
        f = by[k].composition.reduced_formula
        return ground[f], f

    hist = []
    for n, o in enumerate(case["ops"]):
        k = o["o"]
        where = f"step {n} ({k}) after {hist[-10:]}"
        hist.append(k + ("!" if "fault" in o else ""))
        res.steps += 1
        err = got = None
        allowed = None  # targets a failed call may leave
        want_error = not built
        c0 = cost.fired
        cost.n, cost.at = 0, o.get("fault")
        try:
            if k == "build":
                want_error = False
                nw.build()
                built, pre, tar = True, None, None
            elif k == "pre":
                ch = [pick(a, o["f"]) for a in o["a"][:o["n"]]]
                nw.set_precursors([x for _, x in ch])
                changes += pre is not None and pre != frozenset(x for x, _ in ch)
                pre = frozenset(x for x, _ in ch)
            elif k == "tar":
                kk, x = pick(o["a"][0], o["f"])
                nw.set_target(x)
                changes += tar is not None and tar != kk
                tar = kk
            elif k in ("find", "tail_find"):
                ch = [pick(a, o["f"]) for a in o["a"][:max(1, o["n"])]]
                want_error = want_error or not pre
                asked = [x for _, x in ch]
                if k == "tail_find":
                    want_error = True
                    asked = [*asked, "Xe9"]
                allowed = [x for x, _ in ch] if built and pre else []
                got = nw.find_pathways(asked, k=o["k"]).paths
                changes += tar is not None and tar != ch[-1][0]
                tar = ch[-1][0]
            elif k in ("bad_pre", "bad_tar", "bad_find"):
                want_error = True
                x = "Xe9"
                if outside and o["f"]:
                    x = outside[int(o["a"][0] * len(outside))]
                if k == "bad_pre":
                    g = [pick(a, o["f"])[1] for a in o["a"][1:o["n"]]]
                    nw.set_precursors([*g, x])
                elif k == "bad_tar":
                    nw.set_target(x)
                else:
                    nw.find_pathways([x], k=o["k"])
        except Exception as e:
            err = e
        cost.at = None
        fired = cost.fired > c0
        if fired:
            res.fire("cost_failure")
            if not isinstance(err, Boom):
                res.bad("swallowed", f"{where}: the cost function failed but the call gave {type(err).__name__ if err else 'a result'}")
                return res
        elif err is not None and not want_error:
            res.bad("failed", f"{where}: {type(err).__name__}: {str(err)[:200]} @ {base.where(err)}")
            return res
        elif err is None and want_error:
            res.bad("accepted", f"{where}: the call should have been rejected (built={built}, precursors={'set' if pre else 'not set'})")
            return res
        if err is not None and want_error:
            res.probe("rejected")
        # what the network says it is configured for
        now_p = frozenset(canon.entry_key(e) for e in nw.precursors) if nw.precursors is not None else None
        now_t = canon.entry_key(nw.target) if nw.target is not None else None
        if err is not None and allowed:
            if now_t not in [tar, *allowed]:
                res.bad("config", f"{where}: target after the failed search is {now_t}")
                return res
            tar = now_t
        if (now_p or None) != (pre or None) or now_t != tar:
            res.bad("config", f"{where}: precursors {sorted(map(str, now_p or []))[:4]} target {now_t}; want {sorted(map(str, pre or []))[:4]}, {tar}")
            return res
        if not built:
            continue
        # a new network with only the current configuration
        fresh = net.network(case, rxns)
        fresh.build()
        if pre is not None:
            fresh.set_precursors([by[x] for x in pre])
        if tar is not None:
            fresh.set_target(by[tar])
        d = net.graph_diff(net.graph_key(nw.graph), net.graph_key(fresh.graph))
        if d:
            res.bad("graph", f"{where}: graph differs from that of a new network with these precursors and target: {d}")
            return res
        if got is not None:
            msg = net.check_call(case, model, got, pre, [x for x, _ in ch], o["k"])
            if msg is None:
                res.probe("undecided")
            elif msg:
                res.bad("paths", f"{where}: {msg}")
                return res
            res.probe("searches")
    if changes:
        res.nontrivial = True
    res.execs += 1
    res.probe("reconfigurations", changes)
    res.sigs.append(repr((hist, changes)))
    return res


def shrink(case):
    yield from base.shrink_common(case)
    n = len(case["rxns"])
    step = max(1, n // 2)
    while n > 1:
        for i in range(0, n, step):
            d = copy.deepcopy(case)
            del d["rxns"][i:i + step]
            if d["rxns"]:
                yield d
        if step == 1:
            break
        step //= 2
    for i, o in enumerate(case["ops"]):
        if "fault" in o:
            d = copy.deepcopy(case)
            del d["ops"][i]["fault"]
            yield d
